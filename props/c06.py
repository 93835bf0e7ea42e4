import re
from props import edlib
from props.c03 import text_line

FAIL = [b'z', b'99p', b'0p', b'0d', b'2,1p', b'$+1p', b'.-9d', b'/nomatch/p', b'/nomatch/d', b"'ap", b'?a?p', b'e', b'e missing', b'e dir', b'e dir/missing',
        b'w !cat', b'w dir', b'w no/where', b'E f', b'f', b'f new', b'h', b'H', b'P', b'Q', b'u', b'j', b'1,2j', b'l', b'1l', b'm0', b'1t1',
        b'kx', b'1kx', b'r f', b'$r f', b'!touch hacked', b's/a/b/', b'g/a/p', b'v/a/p', b'1,2=', b'1,2', b',', b';', b'1q', b'pp', b'dd', b'wq', b'1 2p',
        b'1e f', b'+p', b'-p', b'1+1+1p', b'ax', b'99999p', b'99999999999999999999p', b'1+99999999999999999999p', b'2-99999999999999999999=',
        b'18446744073709551617p', b'4294967297p', b'/[/p', b'/[x/p', b'/[/+2p', b'/[/+3d', b'/[x/+4=', b'/[/+2,$p', b'1,/[/+3p', b'/nomatch/+2p', b'/nomatch/+3d', b'/nomatch/+2;.+1p', b'//p', b'/ap', b'5;1p', b'/nomatch/;1p', b'1;/nomatch/d', b'1,/nomatch/p', b'P1', b'\x00', b'\xff', b'\xc3\xa9',
        b'w\xff\xfe', b'0n', b'0,1p', b'0c', b'9a', b'9i', b'.+5c', b'1,2a', b',i', b'2,1c', b'/nomatch/a', b'0,1c', b'/no/,/match/c', b"'xa", b'?b?i']


def fail_block(rng, l):
    """A failing command with the text that belongs to it, if it takes text."""
    if l[-1:] in (b'a', b'c', b'i') and not l.startswith((b'e', b'w')):
        return [l] + [text_line(rng) for _ in range(rng.randint(0, 3))] + [b'.']
    return [l]


def garbage(rng):
    n = rng.choice([1, 1, 2, 3, 4, 6, 10, 40])
    x = rng.random()
    if x < .4: pool = list(b'abcdefghijklmnopqrstuvwxyzABCEFHPQ0123456789.,;$+-=?\'!@#%^&*(){}[]|<>"~`:_')
    elif x < .7: pool = list(b'123.,;$+-pndwaic=')
    else: pool = [ch for ch in range(256) if ch not in (9, 10, 12, 13, 32, 47)]
    s = bytes(rng.choice(pool) for _ in range(n))
    if s[:1] == b'q': s = b'x' + s
    return (b' ' if rng.random() < .05 else b'') + s


SHOW = [[b'.=', b',n'], [b'$=', b'.='], [b',p'], [b''], [b'.='], [b'p', b'.=']]


def check(c):
    rng = c.rng
    files = [('f', b'a\nb\nab\n', 0o644), ('g', b'other', 0o644)]
    # TLC: failing commands between working ones leave no trace
    cmds = [fail_block(rng, l) for l in FAIL]
    work = [[b'1p'], [b'2d'], [b'a', b'new', b'.'], [b'.=']]
    cmds1 = [x for x in cmds if not x[0].startswith((b'e ', b'w '))]
    pick = cmds1 if c.thorough else rng.sample(cmds1, 26)
    scen = []
    for s in edlib.explore(c, work + pick, [b'', b'a\nb\nab\n'], 2, 'scripts of two commands with failing ones'):
        scen.append(s)
    if c.thorough:
        scen += edlib.explore(c, work + rng.sample(cmds1, 22), [b'', b'a\nb', b'a\nb\nab\n'], 3, 'scripts of three commands with failing ones')
    for s in scen:
        s['dirs'] = [list(b'dir')]
    # each failing command at each state of a session
    setups = [[], [b'e f'], [b'e f', b'1p'], [b'e f', b'2d'], [b'a', b'only', b'.'], [b'e f', b',d'], [b'e empty']]
    for blk in cmds:
        for st in setups:
            scen.append(edlib.scenario(st + fail_block(rng, blk[0]) + rng.choice(SHOW) + [b'w'] + [b'a', b'after', b'.', b',n', b'w'],
                                       files + [('empty', b'', 0o644)], ['dir']))
    for k in range(8000 if c.thorough else 1200):
        lines = list(rng.choice(setups))
        for _ in range(rng.choice([1, 2, 5, 12])):
            x = rng.random()
            if x < .45:
                g = garbage(rng)
                lines += [g]
                if g.strip(b' ')[-1:] in (b'a', b'i', b'c'): lines += [rng.choice([b'text', b'1d'])] * rng.randint(0, 1) + [b'.']
            elif x < .75: lines += fail_block(rng, rng.choice(FAIL))
            elif x < .85: lines += [rng.choice([b'1p', b'd', b'1d', b'$p', b'w', b'w out', b'e f', b'e g'])]
            else: lines += [rng.choice([b'a', b'1i', b'$c']), text_line(rng), b'.']
            lines += rng.choice(SHOW)
        scen.append(edlib.scenario(lines + [b'.=', b',n', b'w'], files + [('empty', b'', 0o644)], ['dir'], via=rng.randint(0, 1), chunk=rng.choice([0, 0, -1])))
    # a name is remembered from the first e or w that works
    for bad in ([b'w no/where'], [b'w dir'], [b'e missing'], [b'e dir'], [b'w !cat'], [b'w'], [b'9w out2'], [b'/nomatch/w out2'], [b'2,1w out2'], [b'w no/where', b'e missing']):
        for st in ([b'a', b'one', b'two', b'.'], [], [b'e f'], [b'e f', b'1d'], [b'a', b'x', b'.', b'w first']):
            for again in ([], [b'w good'], [b'e g', b'1d']):
                scen.append(edlib.scenario(st + bad + again + [b'w'] + rng.choice([[], bad]) + [b'a', b'more', b'.', b'w', b',n'], files, ['dir'], via=rng.randint(0, 1)))
    # input that ends in the middle of text, long lines, many lines
    for tail in ([b'a'], [b'a', b'x'], [b'1c', b'x', b'y'], [b'1i', b''], [b'a', b'..']):
        scen.append(edlib.scenario([b'e f', b'.='] + tail, files, ['dir'], last_nl=rng.random() < .5 or tail[-1] == b''))
    for ch in (b'z', b'1', b'.', b'p', b'\xff', b"'"):
        scen.append(edlib.scenario([b'e f', ch * 3000, b'.=', b',p'], files, ['dir']))
    scen.append(edlib.scenario([b'z', b'='] * 300, files, ['dir']))
    # lines of any bytes, whatever they may mean: it goes on
    loose = []
    for k in range(3000 if c.thorough else 500):
        pool = rng.choice([list(b'/\\?.,;$+-0123456789 \tapcdinwejmtkgsvulHhP\'"[]*^(){}|!'), [ch for ch in range(256) if ch != 10], list(b'/ ,;aicdp1$\r\t\x0c\x0b')])
        ls = []
        for _ in range(rng.choice([1, 3, 8])):
            g = bytes(rng.choice(pool) for _ in range(rng.choice([1, 2, 3, 5, 8, 20])))
            if not re.search(rb'[wWr!]', g): ls.append(g)
            ls += rng.choice([[], [b'.'], [b'text', b'.']])
        loose.append(edlib.scenario(rng.choice(setups) + ls + [b'.', b',n'], files + [('empty', b'', 0o644)], ['dir'], chunk=rng.choice([0, -1])))
    for s in loose: s['loose'] = True
    scen += loose
    for s in scen:
        s['bad'] = [list(b'no/where'), list(b'dir/missing')]
    recs, _ = edlib.run(c, scen)
    c.sample(edlib.show(recs[3]), edlib.show(recs[len(recs) // 2]), edlib.show(recs[-400]))
