from lib import cli
from props.c18 import data


def lines_file(rng, n, last_nl=True, width=None):
    ls = []
    for i in range(n):
        w = width if width is not None else rng.choice([0, 0, 1, 5, 20, 80])
        ls.append(bytes(rng.choice(b'abc \t\r\x00\xff\xc3\xa9') for _ in range(w)))
    return b'\n'.join(ls) + (b'\n' if last_nl and n else b'')


def check(c):
    rng = c.rng
    n = 7 if c.thorough else 5
    gen = c.model('HeadMC', 'CONSTANTS MaxLen = %d Alphabet = {10, 97} Ns = {0, 1, 2, 3, 10}\nINIT Init\nNEXT Next\nINVARIANTS Right Prefix Emit\n' % n, 'all files up to %d bytes' % n)
    cases = []
    for g in gen:
        a = ['f'] if rng.random() < .5 else []
        num = [] if g['n'] == 10 else ['-n', str(g['n'])]
        if g['n'] == 10 and rng.random() < .3: num = ['-n', '10']
        cases.append(dict(args=num + a, files={'f': bytes(g['data'])} if a else {}, stdin=b'' if a else bytes(g['data'])))
    if not c.thorough:
        rng.shuffle(cases)
        cases = cases[:300]
    c.extra['spec_behaviours_replayed'] = len(cases)
    for k in range(800 if c.thorough else 200):
        fs = {}
        for i in range(rng.choice([1, 1, 2, 3, 4])):
            fs['f%d' % i] = lines_file(rng, rng.choice([0, 1, 5, 9, 10, 11, 12, 30, 200]), rng.random() < .6)
        fs['sp ace'] = b'x\ny\n'
        fs['%d'] = b'percent %s\n' * 3
        args = [rng.choice(list(fs)) for _ in range(rng.choice([0, 1, 1, 2, 3, 5]))]
        if rng.random() < .15: args.insert(rng.randint(0, len(args)), '-')
        if rng.random() < .15: args.insert(rng.randint(0, len(args)), rng.choice(['missing', 'dir']))
        num = rng.choice([[], ['-n', '10'], ['-n', '1'], ['-n', '3'], ['-n', '100'], ['-n', '9'], ['-n', '11'], ['-n', '0'], ['-n', '007'], ['-n', '1000000']])
        if num == ['-n', '0']: args = [a for a in args if a != 'dir']   # with 0 lines there is nothing to read, so nothing that fails
        cases.append(dict(args=num + args, files=dict(fs, dir=None), stdin=lines_file(rng, rng.choice([0, 3, 10, 15]), rng.random() < .5)))
    for size in (4094, 4095, 4096, 4097, 8192, 65535, 65536, 65537, 70000, 200000):
        long = data(rng, size, 'nonl')
        cases.append(dict(args=['-n', '2', 'f'], files={'f': long + b'\nsecond\nthird\n'}))
        cases.append(dict(args=rng.choice([[], ['-']]), stdin=b'a\n' + long))
        cases.append(dict(args=['-n', '1', 'f', 'g'], files={'f': long, 'g': long[:size - 1] + b'\n' + b'no'}))
    cases.append(dict(args=['-n', '5000', 'f'], files={'f': lines_file(rng, 6000, width=3)}))
    # no number of lines
    for num in ('x', '', '1x', 'x1', '1.5', '--', 'f', '0x10', '1 ', ' 1', '1e3', '1,0', '1_0', '-'):
        cases.append(dict(args=['-n', num] + rng.choice([[], ['f'], ['-'], ['f', 'f']]), files={'f': b'1\n2\n'}, stdin=b'a\nb\n'))
        if rng.random() < .4: cases.append(dict(args=['-n', '1', '-n', num, 'f'], files={'f': b'1\n2\n'}))
    cases += [dict(args=a, files={'f': b'1\n2\n'}, stdin=b'a\nb\n') for a in (['-n'], ['-n', '1', '-n'], ['-n', '1', '-n', '2', 'f'])]
    # more lines than there are
    for num in (2 ** 16, 2 ** 31 - 1, 2 ** 31, 2 ** 31 + 1, 2 ** 32, 2 ** 32 + 1, 10 ** 9, 10 ** 10, 10 ** 18, 2 ** 63 - 1):
        cases.append(dict(args=['-n', rng.choice(['%d', '%d', '0%d', '%025d']) % num] + rng.choice([['f'], ['f', 'g'], ['f', '-'], []]),
                          files={'f': lines_file(rng, rng.choice([3, 12, 40])), 'g': b'a\nb'}, stdin=lines_file(rng, 11, False)))
    # long lines in blocks
    for n in (17, 40, 170):
        blk = lambda m: [1000 + rng.randrange(9) if rng.random() < .8 else rng.choice([0, 65, 255]) for _ in range(m)]
        cases.append(dict(args=['-n', '2', 'f', 'g'], files={'f': cli.Symbols(blk(n) + [10] + blk(2) + [10] + blk(2)), 'g': cli.Symbols(blk(n))}))
        cases.append(dict(args=['-n', '1'], stdin=cli.Symbols(blk(n) + [10] + blk(2))))
    cases.append(dict(args=['-n', '70001', 'f'], files={'f': b'\n' * 70005}))
    cases.append(dict(args=['-n', '70001'], stdin=b'z\n' * 70001 + b'y'))
    # input that arrives in pieces, and named pipes
    for k in range(25):
        x = lines_file(rng, rng.choice([1, 5, 12, 30, 100]), rng.random() < .5)
        num = rng.choice([[], ['-n', '1'], ['-n', '11'], ['-n', '100']])
        cases.append(dict(args=num + rng.choice([[], ['-'], ['y', '-', 'y']]), files={'y': b'Y\n'}, stdin=x, slow=max(len(x) // rng.randint(2, 9), 1)))
        cases.append(dict(args=num + rng.choice([['p'], ['y', 'p', 'y'], ['p', 'missing', 'y']]), files={'y': b'Y\n', 'p': cli.Fifo(x)}))
    for k in range(8):
        x = lines_file(rng, rng.choice([1, 5, 12, 30, 100]), rng.random() < .5)
        cases.append(dict(args=rng.choice([[], ['-n', '11'], ['-n', '100']]) + rng.choice([[], ['-'], ['y', '-', 'y']]), files={'y': b'Y\n'}, stdin=x, seek=rng.choice([0, 1, 5000])))
    for x in cli.kernels():
        for num in ([], ['-n', '1'], ['-n', '100']):
            cases.append(dict(args=num + rng.choice([['k'], ['y', 'k', 'k']]), files={'y': b'Y\n', 'k': x}))
    exe = c.build_cmd('head')
    recs = [cli.rec(k, g) for k, g in zip(cases, cli.run(c, exe, cases))]
    for i, d in c.judge('HeadTrace', recs):
        c.violation(cli.show(recs[i]), d)
    c.sample(cli.show(recs[10]), cli.show(recs[400]))
