from props import edlib

BASES = [b'1', b'2', b'3', b'.', b'$', b'/a/', b'/^b/', b'/^$/', b'/zz/', b'0', b'9']
OFFS = [b'', b'+', b'-', b'+1', b'-2', b'+3']
DATA = b'a\nb\nab\n\n'


def addrs(full):
    if full:
        return [x + o for x in BASES for o in OFFS]
    return [b'1', b'2', b'3', b'.', b'$', b'/a/', b'/^b/', b'/^$/', b'.+', b'.-', b'$-', b'$-2', b'1+2', b'/a/+', b'/b$/-1', b'2-1', b'9', b'0']


def commands(full):
    singles = addrs(True)
    pair = addrs(full)
    out = []
    for a in [b''] + singles:
        for l in (b'', b'p', b'd', b'='):
            out.append([a + l])
        for l in (b'a', b'i', b'c'):
            if l != b'i': out.append([a + l, b'.'])
            out.append([a + l, b'X', b'Y', b'.'])
    for sep in (b',', b';'):
        for x in [b''] + pair:
            for y in [b''] + pair:
                out.append([x + sep + y + b'p'])
                if x in (b'', b'2', b'/a/', b'$-') or y in (b'', b'/a/', b'.+'):
                    out.append([x + sep + y + b'd'])
                    out.append([x + sep + y + b'c', b'X', b'.'])
    return out


def rand_addr(rng, n, pats):
    base = rng.choice([b'%d' % rng.randint(0, n + 1), b'.', b'$', b'/' + rng.choice(pats) + b'/', b'%03d' % rng.randint(1, max(n, 1))])
    x = rng.random()
    if x < .45: return base
    return base + rng.choice([b'+', b'-']) + rng.choice([b'', b'', b'1', b'2', b'3', b'0', b'01', b'10'])


def random_script(rng, n):
    words = [b'a', b'b', b'ab', b'', b'abc', b'foo bar', b'x+1', b'a/b', b'/', b'1', b'bb a', b'aXb', b'ccc', b'end']
    pats = [b'a', b'b', b'^a', b'b$', b'^$', b'a.*b', b'c*', b'[xy]', b'foo', b'a\\/b', b'\\/', b'^ab$', b'zz', b'.', b'^...$', b'x[+]1', b' ']
    lines = [rng.choice(words) for _ in range(rng.choice([0, 1, 2, 3, 4, 6, 9, 15]))]
    nl = rng.random() < .8
    data = b'\n'.join(lines) + (b'\n' if lines and nl else b'')
    size = len(lines)
    script = [b'e f']
    for _ in range(n):
        x = rng.random()
        a = b''
        if x < .5: a = rand_addr(rng, size, pats)
        elif x < .85:
            sep = rng.choice([b',', b';'])
            l = rand_addr(rng, size, pats) if rng.random() < .8 else b''
            r = rand_addr(rng, size, pats) if rng.random() < .8 else b''
            a = l + sep + r
            if r and rng.random() < .15: a = l + b' ' + sep + b' ' + r
        op = rng.choice([b'p', b'p', b'n', b'd', b'c', b'a', b'i', b'=', b'', b'w'])
        if op in (b'a', b'i', b'=', b'') and (b',' in a or b';' in a):
            op = b'p'
        script.append((b' ' if rng.random() < .05 else b'') + a + op)
        if op in (b'a', b'i', b'c'):
            script += [rng.choice(words) for _ in range(rng.choice([1, 2, 3] + ([0] if op != b'i' else [])))] + [b'.']
        y = rng.random()
        if y < .35: script.append(b'.=')
        elif y < .5: script.append(b'')
        elif y < .6: script.append(b'.,$n')
    return script + [b'.=', b',n'], data


def check(c):
    rng = c.rng
    here = [[b'%dp' % k] for k in (1, 2, 3, 4)] + [[b'2d']]
    cmds = commands(c.thorough)
    # every command from every current line: the first command of a script sets the line
    scen = []
    gen = edlib.explore(c, cmds, [DATA], 1, 'every address form')
    for s in gen:
        for h in here:
            n = len(s['lines'])
            scen.append(edlib.scenario([b'e f'] + h + [bytes(l) for l in s['lines'][1:]], [('f', DATA, 0o644)]))
    if not c.thorough:
        rng.shuffle(scen)
        scen = scen[:9000]
    short = [[x] for x in (b'', b'1p', b'2p', b'$p', b'/a/p', b'/^b/;+p', b'1;/b/d', b'.,.+1p', b';p', b'2,p', b',2p', b'.-=', b'.+,$d', b'/a/+p', b'0p', b'2;.+1p')]
    short += [[b'.a', b'X', b'.'], [b'1i', b'a', b'b', b'.'], [b'/a/c', b'Q', b'.'], [b'2,/b/c', b'Z', b'ab', b'.'], [b'2c', b'.'], [b'1a', b'.']]
    scen += edlib.explore(c, short, [DATA, b'a\nb', b'q\n'], 3 if c.thorough else 2, 'histories of commands that move the current line')
    for k in range(6000 if c.thorough else 900):
        script, data = random_script(rng, rng.choice([2, 4, 8, 16, 30]))
        scen.append(edlib.scenario(script, [('f', data, 0o644)]))
    many = [b'l%d' % i for i in range(1, 1201)]
    scen.append(edlib.scenario([b'a'] + many + [b'.', b'1000p', b'/^l1$/p', b'/l11$/+5p', b'999;.+3n', b'1200;/l9/p', b'$-1000=', b'.='], []))
    for size in (32766, 65534):
        n = size + rng.randint(10, 5000)
        data = b''.join(b'%d\n' % i for i in range(1, n + 1))
        near = lambda: rng.choice([size + rng.randint(-3, 9), rng.randint(1, n)])
        script = [b'e f', b'$=']
        for _ in range(10):
            x, y = sorted((near(), near()))
            script.append(rng.choice([b'%dp' % x, b'/^%d$/n' % y, b'%d;/%d$/=' % (x, y), b'%d;+2n' % x, b'.+%dn' % rng.randint(0, 9), b'/^%d/n' % rng.randint(1, 9), b'%d;/^%d$/-1n' % (x, x), b'$-%d=' % (n - x), b'/zzz/p', b'']))
            if b';' in script[-1]: script[-1] = script[-1].replace(b'=', b'p') if y - x < 50 else b'%dp' % y
        scen.append(edlib.scenario(script + [b'.=', b'%d,%dd' % (size - 1, size + 2), b'.=', b'%dp' % size, b'1,%dd' % (size - 5), b'.=', b',n'], [('f', data, 0o644)]))
    # numbers are decimal, whatever they begin with
    nums = [b'0010', b'010', b'08', b'019', b'00', b'0', b'000000000000000000000001', b'0x10', b'1e1', b'0b1', b'0o7', b'1_0', b'100', b'011']
    for k in range(60):
        script = [b'e f', b'%dp' % rng.randint(1, 120)]
        for _ in range(8):
            a, o = rng.choice(nums), rng.choice(nums)
            script.append(rng.choice([a, b'.+' + o, b'$-' + o, a + b'+' + o, b'.-' + o, a + b',.+' + o, a + b';.+' + o, b'/^l1$/+' + o]) + rng.choice([b'p', b'n', b'=']))
            if script[-1][-1:] == b'=' and (b',' in script[-1] or b';' in script[-1]): script[-1] = script[-1][:-1] + b'p'
        scen.append(edlib.scenario(script + [b'.='], [('f', b''.join(l + b'\n' for l in many[:120]), 0o644)]))
    # numbers far past the last line: none of them stands for a line that is there, except as a sum
    for k in range(120 if c.thorough else 40):
        n = rng.randint(1, 6)
        big = lambda: (1 << rng.choice([8, 15, 16, 31, 32, 33, 63, 64, 65, 128])) + rng.randint(-2, n + 1)
        script = [b'e f', b'%dp' % rng.randint(1, n)]
        for _ in range(8):
            x = rng.random()
            m = rng.choice([rng.randint(70000, 999999999 - 9), 65536, 1000000])
            if x < .3: a = b'%d' % big()
            elif x < .6: a = rng.choice([b'.', b'$', b'1', b'/l/']) + rng.choice([b'+', b'-']) + b'%d' % big()
            elif x < .8: a = b'%d-%d' % (m + rng.randint(0, n + 1), m)
            else: a = b'1' + rng.choice([b',', b';']) + b'%d-%d' % (m + rng.randint(0, n + 1), m)
            script += [a + rng.choice([b'p', b'n', b'd'] if b',' in a or b';' in a else [b'p', b'n', b'd', b'=', b'']), b'.=']
        scen.append(edlib.scenario(script, [('f', b''.join(b'l%d\n' % i for i in range(n)), 0o644)]))
    recs, _ = edlib.run(c, scen)
    c.sample(edlib.show(recs[5]), edlib.show(recs[-400]), edlib.show(recs[-30]))
