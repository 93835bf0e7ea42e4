from lib import cli
from props import difflib
from props.c09 import data

OPTS = [[], [], ['-b'], ['-c'], ['-e'], ['-f'], ['-r'], ['-u'], ['-C', '2'], ['-U', '0'], ['-U', '10'], ['-C', '1', '-b'], ['-r', '-u']]


def check(c):
    rng = c.rng
    ps = difflib.small(c)
    sm = ps if c.thorough else [p for p in ps if len(p[0]) + len(p[1]) <= 3] + rng.sample(ps, 150)
    c.extra['spec_behaviours_replayed'] = len(sm)
    pb = difflib.pairs(c, c.thorough)
    cases = []
    for x, y in sm + (pb if c.thorough else rng.sample(pb, 160) + pb[-10:]):
        k = rng.random()
        a, b2 = rng.choice([('old', 'new'), ('sp ace', '\u00e9'), ('x.txt', '%s')])
        # the same lines in two files, with and without a last newline, now and then
        if k < .2: y = x
        args = [a, b2]
        for w in [rng.choice(OPTS) for _ in range(rng.choice([0, 1, 1, 2]))]:
            at = rng.randint(0, len(args))
            args[at:at] = w
        cases.append(dict(args=args, files={a: data(rng, x), b2: data(rng, y)}))
    # data that is not lines
    for n in (4095, 4096, 4097, 65536, 300000):
        x = b'a' * n
        cases.append(dict(args=['p', 'q'], files=dict(p=x, q=x + b'\n')))
        cases.append(dict(args=['p', 'q'], files=dict(p=x, q=x[:-1] + b'b')))
        cases.append(dict(args=['p', 'q'], files=dict(p=x + b'\n', q=x + b'\n\n')))
        cases.append(dict(args=['p', 'p'], files=dict(p=x)))
    # many differences
    x, y = b''.join(b'%d some text\n' % i for i in range(26000)), b''.join(b'another %d\n' % i for i in range(40000, 66000))
    cases.append(dict(args=['p', 'q'], files=dict(p=x, q=y)))
    cases.append(dict(args=['p', 'q'], files=dict(p=x, q=x[:-9] + b'T' + x[-8:])))
    for x, y in ((b'', b'\n'), (b'\n', b''), (b'', b''), (b'\n', b'\n'), (b'\n\n', b'\n'), (b'a', b'a\n'), (b'a\r\n', b'a\n'), (b'a ', b'a'), (b'A', b'a'), (b'\0', b'\0\n'), (b'\0', b'')):
        cases.append(dict(args=['p', 'q'], files=dict(p=x, q=y)))
        cases.append(dict(args=['-b', 'p', 'q'] if x != b'a ' and x != b'a\r\n' else ['p', 'q'], files=dict(p=x, q=y)))
    for x, y in ((b'a b\nc', b'a\nb c'), (b'a b\n', b'a\nb\n'), (b'ab\nc\n', b'a\nbc\n'), (b'a,b\nc', b'a\nb,c')):
        cases.append(dict(args=['p', 'q'], files=dict(p=x, q=y)))
    for k in range(10):
        x, y = rng.choice(sm)
        x, y = data(rng, x), data(rng, y)
        cases.append(dict(args=['p', 'q'], files=dict(p=cli.Fifo(x), q=y) if k % 2 else dict(p=cli.Fifo(x), q=cli.Fifo(y))))
    for x in cli.kernels():
        for y in (x, x + b'z\n', x[1:], b''):
            cases.append(dict(args=rng.choice([['p', 'q'], ['q', 'p']]), files=dict(p=x, q=bytes(y))))
    fs = dict(p=b'a\n', q=b'b\n', dir=None, empty=b'')
    fs.update({'7': b'a\n'})
    for o in ('-C', '-U'):
        for args in ([o], ['p', o], ['p', 'q', o], [o, 'p', 'q'], [o, 'p', 'p'], ['p', o, 'q'], ['p', o, 'p'], [o, '7', 'p'], [o, '7', 'p', 'p'], [o, '7', 'p', 'q'], ['7', o, '7', 'p'],
                     [o, o, 'p', 'q'], [o, '', 'p', 'p'], [o, '1x', 'p', 'p'], [o, '-b', 'p', 'p'], [o, '1', o, '2', 'p', 'q'], [o, '1', 'p', 'p', 'q'], [o, '1', 'p'], [o, '1', 'p', 'missing']):
            cases.append(dict(args=args, files=fs))
    for args in ([], ['p'], ['p', 'q', 'p'], ['p', 'p', 'p', 'p'], ['missing', 'p'], ['p', 'missing'], ['missing', 'missing'], ['dir', 'p'], ['p', 'dir'], ['dir', 'dir'], ['empty', 'missing'],
                 ['missing', 'empty'], ['empty', 'dir'], ['missing'], ['missing', 'p', 'q'], ['p', 'q', 'missing'], ['', 'p'], ['p', ''], [''], ['', ''], ['', 'p', 'q'], ['p', '', 'p'], ['p', 'p', ''], ['p/x', 'p']):
        for o in ([], rng.choice(OPTS[2:])):
            cases.append(dict(args=o + args, files=fs))
            cases.append(dict(args=args + o, files=fs))
    recs = []
    for k, g in zip(cases, cli.run(c, c.build_cmd('diff'), cases)):
        r = cli.rec(k, g)
        r['what'] = 'exit'
        if 'out' in r: r['out'] = r['out'][:200]        # that there are differences, not which
        recs.append(r)
    for i, d in c.judge('DiffTrace', recs):
        c.violation(difflib.show(recs[i]), d)
    c.sample(difflib.show(recs[50]), difflib.show(recs[-40]))
