import random
from lib import cli
from props.c18 import data


def farther(c, exe, rng):
    """More bytes than 32 bits count, nearly all of them in a hole."""
    cases, recs = [], []
    for size, o in [(2 ** 31, rng.choice([[], ['-l']])), (2 ** 32, []), (2 ** 32, ['-l'])][:3 if c.thorough else 2] if c.free_memory() > 20 else []:
        n = size + rng.randrange(3000)
        pre = b'\n' * rng.randrange(90)
        x, y = [p + data(rng, rng.choice([0, 1, 30])) for p in (b'P', b'Q')]
        cases.append(dict(args=o + ['left', 'right'], files={'left': cli.Sparse([pre, n, x]), 'right': cli.Sparse([pre, n, y])}, timeout=400, memory=26))
        recs.append((dict(args=o + ['left', 'right'], files={'left': x, 'right': y}), dict(skip=cli.past(len(pre) + n, len(pre)))))
    c.extra['largest_input'] = 1 << 32
    return [dict(cli.rec(r, g), **k) for (r, k), g in zip(recs, cli.run(c, exe, cases, where='far'))]


def check(c):
    rng = c.rng
    n = 4 if c.thorough else 3
    gen = c.model('CmpMC', 'CONSTANTS MaxLen = %d Alphabet = {10, 97%s}\nINIT Init\nNEXT Next\nINVARIANTS Right Emit\n' % (n, '' if c.thorough else ', 200'),
                  'all pairs of files up to %d bytes, all options' % n)
    opt = lambda g: [bytes(o) for o in g['opt']]
    pick = gen if c.thorough else [g for g in gen if len(g['x']) + len(g['y']) <= 3] + rng.sample(gen, 1200)
    c.extra['spec_behaviours_replayed'] = len(pick)
    cases = [dict(args=opt(g) + [b'a', b'b'], files={'a': bytes(g['x']), 'b': bytes(g['y'])}) for g in pick]
    OPT = [[], [], ['-l'], ['-s'], ['-l', '-s'], ['-s', '-l']]

    def variant(x):
        """A second file that differs in a chosen way."""
        k = rng.random()
        y = bytearray(x)
        if k < .12: return bytes(y)
        if k < .3: return bytes(y) + rng.randbytes(rng.choice([1, 1, 5, 5000]))
        if k < .48: return bytes(y[:rng.randint(0, len(y))])
        for _ in range(rng.choice([1, 1, 2, 4])):
            if y:
                i = rng.choice([0, len(y) - 1, rng.randrange(len(y))])
                y[i] = rng.choice([(y[i] + 1) % 256, 10, y[i] ^ 128, 0, 7, 8, 63, 64, 255])
        if k > .85: y += b'tail'
        if k > .93 and y: del y[rng.randrange(len(y))]
        return bytes(y)

    for k in range(900 if c.thorough else 250):
        x = data(rng, rng.choice([1, 2, 5, 30, 300, 1000]))
        y = variant(x)
        if rng.random() < .5: x, y = y, x
        a, b2 = rng.choice([('left', 'right'), ('one.txt', 'sp ace'), ('-', 'right'), ('left', '-'), ('\u00e9', 'q%d')])
        fs = {n: d for n, d in ((a, x), (b2, y)) if n != '-'}
        o = rng.choice(OPT)
        args = o + [a, b2] if rng.random() < .8 else [a] + o + [b2]
        cases.append(dict(args=args, files=fs, stdin=x if a == '-' else y if b2 == '-' else b''))
    # long, with the difference at the buffer boundaries
    for at in (4095, 4096, 4097, 8191, 8192, 40000, 65535, 65536):
        x = data(rng, at + rng.choice([1, 100]))
        y = bytearray(x)
        y[at] ^= 1
        cases.append(dict(args=rng.choice(OPT[1:3]) + ['left', 'right'], files={'left': x, 'right': bytes(y)}))
        cases.append(dict(args=rng.choice(OPT) + ['left', 'right'], files={'left': x[:at], 'right': x}))
        cases.append(dict(args=rng.choice(OPT) + ['left', 'right'], files={'left': x, 'right': x}))
        cases.append(dict(args=rng.choice(OPT) + ['left', 'right'], files={'left': x, 'right': x[:at]}))
    big = b'\n' * 3000
    cases.append(dict(args=['left', 'right'], files={'left': big + b'x', 'right': big + b'y'}))
    allb = bytes(range(256))
    cases.append(dict(args=['-l', 'left', 'right'], files={'left': allb, 'right': bytes(255 - i for i in range(256))}))
    # input that arrives in pieces, and named pipes
    for k in range(40):
        x = data(rng, rng.choice([2, 30, 700, 5000]))
        y = variant(x)
        if rng.random() < .5: x, y = y, x
        o, sl = rng.choice(OPT), max(len(x) // rng.randint(2, 9), 1)
        cases.append(dict(args=o + rng.choice([['-', 'r'], ['r', '-']]), files={'r': y}, stdin=x, slow=sl))
        cases.append(dict(args=o + ['p', 'r'], files={'r': y, 'p': cli.Fifo(x)}))
        cases.append(dict(args=o + ['p', 'q'], files={'q': cli.Fifo(y), 'p': cli.Fifo(x)}))
        cases.append(dict(args=o + ['p', '-'], files={'p': cli.Fifo(x)}, stdin=y, slow=sl))
    for k in range(12):
        x = data(rng, rng.choice([0, 30, 700, 5000]))
        y = rng.choice([x, variant(x)])
        cases.append(dict(args=rng.choice(OPT) + rng.choice([['-', 'r'], ['r', '-']]), files={'r': y}, stdin=x, seek=rng.choice([0, 1, 5000])))
    for x in cli.kernels():
        for y in (x, bytes(x[:-1]), variant(bytes(x)), b''):
            cases.append(dict(args=rng.choice(OPT) + rng.choice([['k', 'r'], ['r', 'k']]), files={'r': y, 'k': x}))
    # trouble
    x = {'left': b'abc', 'right': b'abd', 'dir': None, 'empty': b''}
    for o in OPT[1:5]:
        for args in (['left', 'missing'], ['missing', 'left'], ['missing', 'gone'], ['left'], [], ['left', 'right', 'left'], ['dir', 'left'], ['left', 'dir'], ['empty', 'dir'], ['dir', 'empty'],
                     ['missing', 'dir'], ['dir', 'dir'], ['empty', 'missing']):
            cases.append(dict(args=o + args, files=x))
    exe = c.build_cmd('cmp')
    from concurrent.futures import ThreadPoolExecutor
    far = ThreadPoolExecutor(1).submit(farther, c, exe, random.Random('%s/far' % c.seed))
    recs = [cli.rec(k, g) for k, g in zip(cases, cli.run(c, exe, cases))]
    # far into the files: what both begin with is only counted
    for k in range(16):
        nb = rng.choice([1100000, 3 * 10 ** 6, 10 ** 7 + 5]) + rng.randrange(1000)
        if k < 2: nb = 17 * 10 ** 6
        nl = [0, 70000 + rng.randrange(9000), 1000003][k % 3]
        pre = b'\n' * min(nl, nb) + b'.' * max(nb - nl, 0)
        nl, nb = min(nl, nb), len(pre)
        if nl and k % 4 == 1: pre = pre[::-1]
        elif nl and k % 4 > 1:
            pre = (b'.' * ((nb - nl) // nl) + b'\n') * nl
            pre += b'.' * (nb - len(pre))
        x = data(rng, rng.choice([0, 1, 5, 40]))
        y = variant(x) if k > 7 else b'Q' + x
        o = [[], ['-l']][k % 2] if k < 8 else rng.choice(OPT)
        if k < 8: x = b'P' + x
        g = cli.run(c, exe, [dict(args=o + ['left', 'right'], files={'left': pre + x, 'right': pre + y})])[0]
        recs.append(dict(cli.rec(dict(args=o + ['left', 'right'], files={'left': x, 'right': y}), g), skip=cli.past(nb, nl)))
    recs += far.result()
    for i, d in c.judge('CmpTrace', recs):
        c.violation(cli.show(recs[i]), d)
    c.sample(cli.show(recs[100]), cli.show(recs[len(pick) + 3]), cli.show(recs[-5]))
