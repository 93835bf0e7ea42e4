from props import edlib


def edit_cmds():
    cmds = []
    for i, h in enumerate([b'a', b'0a', b'1a', b'$a', b'i', b'0i', b'2i', b'$i', b'c', b'1c', b'1,2c', b'2,$c']):
        cmds.append([h, b'%c' % (ord('p') + i), b'.'])
    cmds.append([b'a', b'one', b'', b'.'])
    cmds.append([b'2,2c', b'..', b'1d', b'.'])
    cmds += [[h, b'.'] for h in (b'1a', b'2i', b'2,$c', b'0a')]
    cmds += [[h] for h in (b'd', b'1d', b'2d', b'$d', b'1,2d', b'2,$d')]
    return cmds


FILES = [b'', b'a', b'a\nb\n', b'a\n\nc']


def text_line(rng):
    x = rng.random()
    if x < .08: return b''
    if x < .2: return rng.choice([b'..', b'. ', b' .', b'.a', b'.\r', b'\\.', b'.d', b'. .'])
    if x < .35: return rng.choice([b'a', b'1,2d', b'q', b'w', b'i', b'c', b'$p', b'e f', b'd', b',d', b'1a', b'?', b'=', b'0a'])
    if x < .5: return rng.choice(['é', '日本語', 'aé\u2028z', '😀', 'ﬀ', '\ufeff', 'x\u0085y']).encode()
    if x < .6: return bytes(rng.choice([0, 1, 7, 9, 11, 12, 13, 27, 127, 128, 193, 255, 254, 240]) for _ in range(rng.randint(1, 6)))
    if x < .68: return b'abc\r'
    if x < .72: return b'%s\\n%d\\' if rng.random() < .5 else b'\\1 \\'
    if x < .75: return b'x' * rng.choice([255, 256, 1000, 4095, 4096, 4097])
    if x < .8: return b'  lead' if rng.random() < .5 else b'trail \t '
    return bytes(rng.choice(b'abcxyz01') for _ in range(rng.randint(1, 8)))


def addr(rng, n, count):
    """A way to write line n."""
    x = rng.random()
    if x < .7: return b'%d' % n
    if n == count and x < .8: return rng.choice([b'$', b'$', b'$+0', b'$-0'])
    k = rng.randint(0, 12)
    if x < .85 and n >= k: return b'%d+%d' % (n - k, k) if k != 1 else b'%d+' % (n - 1)
    if x < .93: return b'$-%d' % (count - n) if count - n != 1 else b'$-'
    return b'%d-%d' % (n + k, k) if n + k <= count else b'%d' % n


def random_edits(rng, n):
    """Valid a, i, c and d commands; the number of lines is followed."""
    nl = rng.random() < .5
    lines = [text_line(rng) for _ in range(rng.choice([0, 0, 1, 1, 2, 3, 5, 12]))]
    data = b'\n'.join(lines) + (b'\n' if nl and lines else b'')
    count = len(lines) if data else 0
    if data and data.endswith(b'\n') and not (nl and lines):
        count = data.count(b'\n')
    script = [b'e f']
    for _ in range(n):
        op = rng.choice(b'aaiiccdd')
        text = [text_line(rng) for _ in range(rng.choice([1, 1, 1, 2, 3, 7, 0]))]
        k = len(text)
        if op in b'ai':
            at = rng.choice([0, count, rng.randint(0, count)])
            if op == ord('i') and not k: at = max(at, 1)
            if at > count: continue
            a = addr(rng, at, count)
            script += [a + bytes([op])] + text + [b'.']
            count += k
        elif count == 0:
            continue
        else:
            s = rng.choice([1, count, rng.randint(1, count)])
            e = rng.choice([s, count, rng.randint(s, count)])
            a = addr(rng, s, count) if s == e and rng.random() < .5 else addr(rng, s, count) + b',' + addr(rng, e, count)
            if op == ord('d'):
                script += [a + b'd']
                count -= e - s + 1
            else:
                script += [a + b'c'] + text + [b'.']
                count += k - (e - s + 1)
    for _ in range(rng.choice([0, 0, 1, 3])):
        # lines found by what is in them
        key = rng.choice([b'key', b'k/', b'/', b'a/b', b'q.'])
        pat = key.replace(b'/', b'\\/')
        script += [rng.choice([b'$a', b'0a', b'a']), rng.choice([b'', b'x ']) + key, b'.']
        script += [b'/' + rng.choice([pat, pat + b'$']) + b'/' + rng.choice([b'', b'', b'+0', b'-0']) + rng.choice([b'a', b'i', b'c'])] + [text_line(rng) for _ in range(rng.randint(1, 2))] + [b'.']
    if rng.random() < .3: script.append(b',n')
    return script, data


def check(c):
    rng = c.rng
    scen = edlib.explore(c, edit_cmds(), FILES, 3 if c.thorough else 2, 'all scripts of edits on 4 files')
    if not c.thorough:
        scen += edlib.explore(c, [x for i, x in enumerate(edit_cmds()) if i % 2 == c.seed % 2], FILES[1:3], 3,
                              'all scripts of 3 edits, half of the alphabet')
    for k in range(4000 if c.thorough else 700):
        script, data = random_edits(rng, rng.choice([1, 2, 4, 8, 20]))
        scen.append(edlib.scenario(script, [('f', data, 0o644)], chunk=rng.choice([0, 0, -1, 1, 7, -2]), via=rng.randint(0, 1)))
    # sizes around the buffers of the readers and writers in between
    for size in (65535, 65536, 65537, 70000, 200000):
        big = bytes(rng.choice(b'abcdef') for _ in range(size))
        scen.append(edlib.scenario([b'e f', b'1a', big, b'small', b'.', b'$a', b'end', b'.', b'1d', b'.='], [('f', b'one\ntwo', 0o644)]))
        scen.append(edlib.scenario([b'e f', b'2i', b'x', b'.', b'1c', b'y', b'.', b'$d'], [('f', big + b'\nb\n' + big, 0o644)]))
    # many lines, and many commands
    for size in (3000, 32766, 65535):
        many = [b'%d' % (i % 977) for i in range(size + rng.randint(0, 4000))]
        n = len(many)
        scen.append(edlib.scenario([b'a'] + many + [b'.', b'%dd' % (size - 1), b'%da' % size, b'new', b'.', b'1500,%dd' % (n - 1000), b'1499a', b'new', b'.', b'.=', b'$=']))
        scen.append(edlib.scenario([b'e f', b'%da' % (size + 1), b'new', b'', b'.', b'%d,%dc' % (size, size + 1), b'x', b'.', b'$-1i'] + many[:900] + [b'.', b'%d,$d' % (size + 1), b'.='], [('f', b'\n'.join(many), 0o644)]))
    for k in range(12 if c.thorough else 3):
        script, data = random_edits(rng, rng.choice([300, 700, 1200]))
        scen.append(edlib.scenario(script, [('f', data, 0o644)]))
    for s in scen[-19:]:
        s['eds'][0]['chunk'] = rng.choice([0, -2, 4096])
    recs, _ = edlib.run(c, scen)
    blk = lambda m: [1000 + rng.randrange(9) if rng.random() < .7 else rng.choice(b'ab\xff\0') for _ in range(m)]
    by = lambda *ls: [list(l) for l in ls]
    batch = []
    for m in (5, 20, 40):
        x, y = blk(m), blk(3)
        batch.append((by(b'e f', b'1a') + [x, y] + by(b'small', b'.', b'$a', b'end', b'.', b'1d', b'.=', b'1p', b'2n'), [('f', list(b'one\ntwo'))]))
        batch.append((by(b'e f', b'2i', b'x', b'.', b'$c') + [x] + by(b'.', b'1i', b'.x', b'.', b'$p', b'=', b'w g', b'e g', b'.='), [('f', x + [10] + list(b'b\n') + y + ([10] if m == 5 else []))]))
    edlib.huge(c, batch)
    c.sample(edlib.show(recs[5]), edlib.show(recs[-40]), edlib.show(recs[-30]))
