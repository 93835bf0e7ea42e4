from lib import cli

NAMES = [b'a', b'b', b'c', b'dd', b'e', b'aa', b'f/1', b'-', b'--', b'0', b'%s', '\u00e9'.encode(), b'\xff', b'A', b'longer-name', b'ab', b'ba', b'\\', b'"q"', b'*']


def graph(rng, n, m, cyclic, names):
    """m pairs over n items; without a cycle unless asked for."""
    ix = list(range(n))
    rng.shuffle(ix)
    out = []
    for _ in range(m):
        if n < 2: break
        x, y = rng.sample(range(n), 2)
        if x > y: x, y = y, x
        if rng.random() < .15: y = min(x + 1, n - 1)
        if x != y: out.append([names[ix[x]], names[ix[y]]])
    if cyclic and n >= 2:
        k = rng.choice([2, 2, 3, min(n, 5)])
        cyc = rng.sample(range(n), min(k, n))
        out += [[names[ix[cyc[i]]], names[ix[cyc[(i + 1) % len(cyc)]]]] for i in range(len(cyc))]
    if out and rng.random() < .5: out += [rng.choice(out) for _ in range(rng.choice([1, 3]))]
    out += [[names[i]] for i in rng.sample(range(n), min(n, rng.choice([0, 0, 1, 3])))]
    rng.shuffle(out)
    return out


def graphs(c):
    rng = c.rng
    out = []
    for k in range(1200 if c.thorough else 250):
        n = rng.choice([1, 2, 3, 4, 5, 8, 12, 20])
        names = rng.sample(NAMES, n)
        out.append(graph(rng, n, rng.choice([0, 1, n, 2 * n, n * n // 2]), rng.random() < .35, names))
    for n in (60, 120):
        names = [b'n%d' % i for i in range(n)]
        out.append(graph(rng, n, 3 * n, False, names))
        out.append(graph(rng, n, 2 * n, True, names))
        out.append([[names[i], names[i + 1]] for i in range(n - 1)])                    # a path
        out.append([[names[i], names[i + 1]] for i in reversed(range(n - 1))])
        out.append([[names[0], x] for x in names[1:]] + [[x, b'end'] for x in names])   # a diamond
        out.append([[names[i], names[(i + 1) % n]] for i in range(n)])                  # a ring
    for n in list(range(2, 20)) + [k + d for k in (32, 64, 100, 128, 256, 512, 1024) for d in (-1, 0, 1)] + [rng.randint(20, 700) for _ in range(5)]:
        ring = [[b'r%d' % i, b'r%d' % ((i + 1) % n)] for i in range(n)]
        rng.shuffle(ring)
        out.append(ring)
        out.append(ring + [[b'r%d' % rng.randrange(n), b'behind'], [b'before', b'r%d' % rng.randrange(n)]])
        out.append(ring[1:])       # no ring
    # many behind one, many before one, many alone, two great layers
    for k in range(6 if c.thorough else 2):
        n = rng.choice([1030, 1500, 2060]) if k else 1030 + rng.randint(0, 500)
        names = [b'%d' % (i * 7919 % 65536) for i in range(n)]
        out.append([[b'hub', x] for x in names] + ([[x, b'end'] for x in names[::3]] if k % 2 else []))
        out.append([[x, b'hub'] for x in names])
        out.append([[x] for x in names] + [[names[5], names[6]]])
        m = rng.randint(40, 70)
        out.append([[x, y] for x in names[:m] for y in names[m:2 * m]])
    long = [b'x' * k + b'y' for k in (4095, 4096, 65535, 65536, 70000)]
    out.append([[long[i], long[i + 1]] for i in range(4)])
    return out


def chains(rng, g):
    """The same pairs, some of them joined to longer chains."""
    out = []
    for a in g:
        if out and len(a) == 2 and len(out[-1]) > 1 and out[-1][-1] == a[0] and rng.random() < .7:
            out[-1] = out[-1] + a[1:]
        else:
            out.append(list(a))
    if rng.random() < .2: out.insert(rng.randint(0, len(out)), [])
    return out


def text(rng, g):
    """The pairs as input of the program."""
    ws = []
    for a in g:
        ws += a if len(a) == 2 else a * 2
    odd = rng.random() < .05
    if odd and ws: ws.append(ws[0])
    if odd and len(ws) > 3 and rng.random() < .5: ws = ws[:-2]
    s = b'' if rng.random() < .9 else rng.choice([b'\n', b'  ', b'\t\n'])
    for i, w in enumerate(ws):
        s += w
        if i < len(ws) - 1 or rng.random() < .85:
            s += rng.choice([b' ', b'\n', b'\t', b'  ', b'\n\n', b' \n ']) if rng.random() < .4 else b' ' if i % 2 == 0 else b'\n'
    return s


def run(c, which):
    rng = c.rng
    inv = 'INIT Init\nNEXT Next\nINVARIANTS Partial Right CycleIsTheReason Emit\n'
    gen = c.model('TsortMC', 'CONSTANTS N = 3 MaxAdds = 3 MaxChain = 3 EmitLen = %d\n' % (3 if c.thorough else 2) + inv, 'all sequences of 3 chains over 3 items, every choice of the next item')
    g4 = c.model('TsortMC', 'CONSTANTS N = 4 MaxAdds = %d MaxChain = 2 EmitLen = 4\n' % (4 if c.thorough else 3) + inv, 'all sequences of 3 (thorough: 4) pairs over 4 items')
    gen += g4 if c.thorough else rng.sample(g4, 1500)
    adds = [[[b'pqrs'[i - 1:i] for i in ch] for ch in g['adds']] for g in gen]
    c.extra['spec_behaviours_replayed'] = len(adds)
    more = graphs(c)
    scen = [dict(adds=[[list(w) for w in ch] for ch in (a if i < len(adds) else chains(rng, a))], runs=3 if i < len(adds) else 5 if len(a) < 600 else 1, asks=sorted(rng.sample(range(len(a)), min(len(a), rng.choice([0, 1, 2]))))) for i, a in enumerate(adds + more)]
    got = c.drive(c.build_driver('tsort'), scen)
    recs = [dict(adds=s['adds'], **g) for s, g in zip(scen, got)]
    nlib = len(recs)
    # the program
    cases = []
    pairs = [a for a in adds if all(len(ch) <= 2 for ch in a)]
    for a in rng.sample(pairs, min(len(pairs), 1500 if c.thorough else 250)) + more:
        s = text(rng, a)
        how = rng.random()
        if how < .4: cases.append(dict(args=[], stdin=s))
        elif how < .6: cases.append(dict(args=['-'], stdin=s))
        else: cases.append(dict(args=['in put'], files={'in put': s}, stdin=b'not this'))
    for s in (b'', b'\n', b'   \n\t', b'a', b'a a', b'a a\n', b'a b c', b'a a a a', b'a a a b', b'a b b a', b'a a b b a b b a', b'a b b b b a', b'a b\nb c\nc a', b'a b\n\n\nc d\n', b'a'):
        cases.append(dict(args=[], stdin=s))
        cases.append(dict(args=['f'], files=dict(f=s)))
    for a in rng.sample(more[:250], 12):
        s = text(rng, a)
        cases.append(dict(args=rng.choice([[], ['-']]), stdin=s, slow=max(len(s) // rng.randint(2, 9), 1)))
        cases.append(dict(args=['p'], files=dict(p=cli.Fifo(s))))
        cases.append(dict(args=rng.choice([[], ['-']]), stdin=s, seek=rng.choice([0, 1, 5000])))
    cases.append(dict(args=['missing'], stdin=b'a b'))
    cases.append(dict(args=['dir'], files=dict(dir=None), stdin=b'a b'))
    n = 1200 if c.thorough else 500
    cases.append(dict(args=[], stdin=b''.join(b'w%d w%d\n' % (i, i + 1) for i in range(n))))
    for k, g in zip(cases, cli.run(c, c.build_cmd('tsort'), cases)):
        recs.append(cli.rec(k, g))
    t = lambda w: bytes(w).decode('latin1')[:200]

    def show(r):
        if 'adds' not in r: return cli.show(r)
        o = dict(r, adds=[[t(w) for w in ch] for ch in r['adds']])
        if 'runs' in r: o['runs'] = [dict(n=x['n'], err=x['err'], order=[t(w) for w in x['order']]) for x in r['runs']]
        return o
    for i, d in c.judge('TsortTrace', recs, constants='CONSTANT Which = "%s"\n' % which):
        c.violation(show(recs[i]), d)
    c.sample(show(recs[20]), show(recs[nlib - 60]), show(recs[nlib + 10]))
