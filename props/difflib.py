"""Pairs of lists of lines."""


def line(rng, kind):
    if kind == 'few': return bytes(rng.choice(b'ab') for _ in range(1))
    if kind == 'odd': return rng.choice([b'', b' ', b'---', b'< a', b'> a', b'1a2', b'2,3c4', b'+ x', b'- x', b'%d %s', b'\r', b'a\r', b'\xff\xfe', '\u00e9'.encode(), b'\x00', b'a', b'a '])
    if kind == 'bytes': return bytes(b for b in rng.randbytes(rng.choice([0, 1, 2, 5])) if b != 10)
    return b'line %d' % rng.randrange(10 ** 6)


def edit(rng, xs, kind, n):
    """The list after n random edits: what a second version of a file looks like."""
    ys = list(xs)
    for _ in range(n):
        k = rng.random()
        at = rng.choice([0, len(ys), rng.randint(0, len(ys))])
        m = rng.choice([1, 1, 2, 5, 10, 11])
        if k < .3: ys[at:at] = [line(rng, kind) for _ in range(m)]
        elif k < .6: del ys[at:at + m]
        elif k < .8: ys[at:at + m] = [line(rng, kind) for _ in range(rng.choice([1, 2, m]))]
        elif k < .9: ys[at:at] = ys[at - m if at > m else 0:at]         # a block twice
        else:
            blk = ys[at:at + m]
            del ys[at:at + m]
            to = rng.randint(0, len(ys))
            ys[to:to] = blk
    return ys


def pairs(c, thorough):
    rng = c.rng
    out = []
    for k in range(1500 if thorough else 350):
        kind = rng.choice(['few', 'few', 'odd', 'bytes', 'lines'])
        n = rng.choice([0, 1, 2, 5, 8, 9, 10, 11, 12, 30])
        x = [line(rng, kind) for _ in range(n)]
        y = edit(rng, x, kind, rng.choice([0, 1, 1, 2, 4, 8])) if rng.random() < .75 else [line(rng, kind) for _ in range(rng.choice([0, 1, 3, 10, 25]))]
        out.append((x, y) if rng.random() < .5 else (y, x))
    for n in (99, 100, 101, 150, 400):
        x = [line(rng, 'lines') for _ in range(n)]
        for m in (0, 1, 3, 20):
            y = edit(rng, x, 'lines', m)
            out += [(x, y), (y, x)]
        few = [line(rng, 'few') for _ in range(min(n, 120))]
        out.append((few, edit(rng, few, 'few', 5)))
        out.append((few, [line(rng, 'few') for _ in range(60)]))
    big = [b'%d' % i for i in range(1005)]
    out.append((big, big[:998] + [b'x'] + big[1000:]))
    out.append((big, [b'new'] + big))
    out.append(([], big[:1001]))
    out.append((big[:1001], []))
    out.append((big, big))
    # the same text in other lines, blanks or letters
    for k in range(120 if thorough else 40):
        w = [rng.choice([b'a', b'b', b'ab', b'', b'word']) for _ in range(rng.randint(1, 7))]
        sep = rng.choice([b' ', b' ', b'', b'\t', b',', b'\0', b'\r'])
        def broken():
            ls = [w[0]]
            for x in w[1:]:
                if rng.random() < .5: ls.append(x)
                else: ls[-1] += sep + x
            return ls
        x, y = broken(), broken()
        out.append((x, y))
        z = [rng.choice([l, l.upper(), l + b' ', b' ' + l, l.replace(b' ', b'  ')]) for l in x]
        out.append((x, z) if rng.random() < .5 else (z, x))
    # long lines that differ in one place only
    for n in (300, 1500, 5000, 9000 + rng.randrange(9000), 70000):
        base = [bytes(rng.choice(b'abc') for _ in range(n)) for _ in range(2)]
        for at in ([0, n // 2, n - 1] if n < 9000 else [rng.choice([0, 1, n // 3]), n // 2 + rng.randrange(9), n - 1]):
            odd = base[0][:at] + b'X' + base[0][at + 1:]
            x, y = [base[0], b'm', base[1]], [odd, b'm', base[1]]
            if n > 9000: x, y = x[:2], y[:2]
            out.append((x, y) if rng.random() < .5 else (y, x))
        out.append(([base[0], base[0] + b'a'], [base[0] + b'a', base[0]]) if n < 9000 else ([base[0]], [base[0][:-1]]))
    wide = [b'w' * 70000, b'v' * 5000]
    out.append((wide, wide[::-1]))
    return out


def huge(rng):
    """Pairs of lists of many lines, as runs (first, count) of lines that are the decimal numbers."""
    n = 102000 + rng.randrange(30000)
    k = rng.randrange(100100, n - 40)
    out = [([(1, n)], [(1, k), (300000, 3), (k + 6, n - k - 5)]),                # change near the end
           ([(1, n)], [(1, 20), (300000, 1), (21, k - 20), (400000, 12), (k + 1, n - k)]),  # additions
           ([(1, n)], [(1, k), (k + 12, n - k - 11)]),                           # removed
           ([(1, 66000)], [(500000, 3), (1, 66000)]),
           ([(1, 12000)], [(20000, 11500)])]                                      # nothing in common
    return out


def lines_of(runs):
    return [b'%d' % i for s, n in runs for i in range(s, s + n)]


def small(c):
    cfg = 'CONSTANTS MaxLen = %d Alphabet = {97, 98%s} EmitSum = %d\nINIT Init\nNEXT Next\nINVARIANTS Right SoFar Reversible %s Emit\n'
    gen = c.model('DiffMC', cfg % (4, '', 8, 'Picky'), 'all pairs of lists up to 4 lines over 2, every choice of longest blocks; damaged diffs rejected')
    gen += c.model('DiffMC', cfg % (4 if c.thorough else 3, ', 99', 6, ''), 'all pairs of lists over 3 lines')
    if c.thorough:
        gen += c.model('DiffMC', cfg % (5, '', 8, ''), 'all pairs of lists up to 5 lines over 2')
    seen, out = set(), []
    for g in gen:
        k = (tuple(map(bytes, g['old'])), tuple(map(bytes, g['new'])))
        if k not in seen:
            seen.add(k)
            out.append((list(k[0]), list(k[1])))
    return out


def rec(what, x, y, got):
    r = dict(what=what, old=[list(l) for l in x], new=[list(l) for l in y])
    r.update(got)
    return r


def show(r):
    t = lambda x: bytes(x).decode('latin1')[:300]
    o = {}
    for k, v in r.items():
        if k in ('oldruns', 'newruns', 'runs') or (k.endswith('after') and 'oldruns' in r): o[k] = v[:40]; continue
        o[k] = [t(l) for l in v[:40]] if k in ('old', 'new', 'parts', 'oldafter', 'newafter', 'args') else t(v) if isinstance(v, list) and k != 'files' else v
    if 'files' in o: o['files'] = {t(f['n']): t(f['d']) for f in r['files']}
    return o
