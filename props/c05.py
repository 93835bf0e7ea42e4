import json, os, subprocess, threading, time
from props import edlib
from props.c03 import text_line
from lib.harness import goenv, Infra, bounded, communicate, Endless

CFG = 'CONSTANTS MaxLen = %d MaxChan = 2 Design = "%s"\nSPECIFICATION Spec\nINVARIANTS InOrder Complete\nPROPERTY Ends\n'


def script(rng, n, name, errors=True):
    """Commands with answers that can be told apart."""
    out, k = [], 0
    if rng.random() < .6:
        out.append(b'e ' + name)
    for _ in range(n):
        x = rng.random()
        k += 1
        if x < .25:
            out += [rng.choice([b'a', b'$a', b'0a'])] + [b'line %d.%d' % (k, j) for j in range(rng.randint(1, 3))] + [b'.']
        elif x < .45:
            out.append(rng.choice([b'p', b'1p', b'$p', b',p', b'.,$p', b'1,$n', b'n']))
        elif x < .6: out.append(rng.choice([b'=', b'.=', b'$=']))
        elif x < .68: out.append(b'w ' + name + b'%d' % rng.randint(0, 2))
        elif x < .74: out.append(rng.choice([b'1d', b'd', b'$d']))
        elif x < .8: out.append(b'')
        elif x < .84: out += [b'$c', text_line(rng).replace(b'?', b'!') or b'z', b'.']
        elif errors:
            out.append(rng.choice([b'z', b'99p', b'/nothing like it/p', b'e no-such-file', b'h', b'u', b'Q', b'!ls', b'kx', b'1,2=', b'5,1p', b'@', b'w !cat']))
            out.append(b'=')
    if rng.random() < .5:
        at = rng.randint(max(len(out) - 4, 0), len(out))
        # only where a command is expected
        depth = 0
        for i, l in enumerate(out[:at]):
            if depth: depth = l != b'.'
            elif l[-1:] in (b'a', b'c') and not l.startswith((b'e ', b'w ')) and b' ' not in l and not l.startswith(b'/'): depth = 1
        if not depth:
            out[at:at] = [rng.choice([b'q', b' q', b'q '])]
    return out


def check(c):
    rng = c.rng
    n = 6 if c.thorough else 5
    c.model('EdPipeline', CFG % (n, 'sync'), 'one thread, all scripts of up to %d commands' % n)
    c.refuted('EdPipeline', CFG % (3, 'racy'), 'reader answers while executor works')
    c.refuted('EdPipeline', CFG % (3, 'lossy'), 'program ends with the input')

    scen = []
    data = b'alpha\nbeta\ngamma\n'
    for k in range(5000 if c.thorough else 700):
        s = script(rng, rng.choice([1, 3, 6, 15, 40]), b'f', errors=rng.random() < .6)
        scen.append(edlib.scenario(s, [('f', data if rng.random() < .8 else b'alpha\nbeta', 0o644)], chunk=rng.choice([0, 1, 2, 3, 7, -1, -1, -2]),
                                   slow=rng.choice([0, 0, 1, 1, 2]), via=rng.randint(0, 1), seed=rng.randrange(1 << 30), last_nl=rng.random() < .7))
    # a lot of output and a lot of input, slowly taken
    big = [b'%d' % i * 7 for i in range(400)]
    for ch in (0, 1, -1):
        scen.append(edlib.scenario([b'a'] + big + [b'.'] + [b',p', b'1,200n', b'=', b'$p'] * 4, [], chunk=ch, slow=1, seed=5))
    scen.append(edlib.scenario([b'='] * 500, [], chunk=-1, slow=1))
    for size in (4095, 4096, 4097, 9000) + ((65535, 65536, 70000) if c.thorough else ()):
        scen.append(edlib.scenario([b'a', b'x' * size, b'second', b'.', b'1p', b'=', b',n', b'1', b',p', b'.='], [], slow=rng.randint(0, 1), seed=5))
        scen.append(edlib.scenario([b'e f', b'2,$p', b'=', b'2,$n', b'.='], [('f', b'y\n' * (size // 2) + b'z', 0o644)], seed=6))
    # thousands of commands
    for k in range(3 if c.thorough else 1):
        lines = [b'a', b'x', b'y', b'z', b'.']
        for _ in range(rng.randint(6000, 12000)):
            lines += rng.choice([[b'='], [b'.='], [b'1'], [b'2p'], [b''], [b'$='], [b'1,2n'], [b'z'], [b'2c', b'%d' % rng.randint(0, 9), b'.']])
        scen.append(edlib.scenario(lines, [], seed=7))
    recs, _ = edlib.run(c, scen, stray=True)
    c.sample(edlib.show(recs[3]), edlib.show(recs[20]))

    # editors that run at the same time in one process
    multi, texts = [], []
    for k in range(400 if c.thorough else 60):
        m = rng.randint(2, 5)
        ss = [script(rng, rng.choice([3, 10, 25]), b'%d' % i) for i in range(m)]
        fs = [('%d' % i, b'of %d\nmore of %d\n' % (i, i), 0o644) for i in range(m)]
        one = edlib.scenario([], fs)
        one['eds'] = [edlib.scenario(s, [], chunk=rng.choice([0, 1, -1]), slow=rng.choice([0, 1, 2]), via=rng.randint(0, 1), seed=rng.randrange(1 << 30))['eds'][0] for s in ss]
        multi.append(one)
        texts.append(ss)
    # the same commands at the same time, many times over
    for k in range(40 if c.thorough else 10):
        m, reps = 8, 25
        ss = []
        for i in range(m):
            s = [b'e %d' % i]
            for j in range(rng.randint(4, 8)):
                s += rng.choice([[b',n'], [b',p'], [b'1,5n', b'='], [b'/%d/p' % i], [b'.='], [b'$a', b'%d+' % i * 5, b'.'], [b'1c', b'%d-' % i, b'.'], [b'w %d' % i], [b'e %d' % i], [b'z'], [b'/[/p']])
            ss.append(s + [b',n', b',p', b'q'])
        one = edlib.scenario([], [('%d' % i, (b'of %d ' % i * (i + 1) + b'\n') * rng.randint(3, 12), 0o644) for i in range(m)])
        one['eds'] = [edlib.scenario(s, [], via=rng.randint(0, 1))['eds'][0] for s in ss]
        multi += [one] * reps
        texts += [ss] * reps
    exe = c.build_driver('ed')
    recs = []
    for one, ss, g in zip(multi, texts, c.drive(exe, [dict(files=s['files'], dirs=[], eds=s['eds']) for s in multi])):
        for i, s in enumerate(ss):
            mine = lambda fs: [dict(n=f['n'], d=f['d']) for f in fs if f['n'][0] == 48 + i]
            base = dict(script=[list(l) for l in s], files0=mine(one['files']))
            recs.append(dict(base, **g) if 'fatal' in g else
                        dict(base, out=g['outs'][i], final=g['finals'][i], files=mine(g['files']), bad=[]))
            if 'stray' in g: recs[-1]['stray'] = True
    c.extra['concurrent_editors'] = len(recs)
    seen, once = set(), []
    for r in recs:
        key = json.dumps(r)
        if key not in seen:
            seen.add(key)
            once.append(r)
    edlib.judge(c, once)

    # the program: standard output holds the answers and nothing else
    if c.violations: return
    ed = c.build_cmd('ed')
    recs = cli(c, ed, rng, 300 if c.thorough else 60)
    edlib.judge(c, recs)
    c.extra['program_runs'] = len(recs)


def cli(c, ed, rng, n):
    recs = []
    hung = 0
    for k in range(n):
        if hung >= 4: break        # no need to wait for all the others
        d = os.path.join(c.work, 'cli%d' % k)
        os.mkdir(d)
        data = rng.choice([b'alpha\nbeta\ngamma\n', b'one', b'', b'x\ny\n'])
        name = rng.choice(['f', 'f', 'f', 'a file', 'd\u00e9j\u00e0 vu.txt', 'n' * 63, 'n' * 64, 'm' * 65, 'k' * 200, 'x.swp', 'a-b', '1,2p', '.', 'w q', 'e f', './sub'][: 13 if k % 3 else 4] + ['o%d' % k])
        if name == '.': name = 'l' * rng.randint(1, 240)
        open(os.path.join(d, name), 'wb').write(data)
        arg = rng.choice([None, name, name, 'missing'])
        s = script(rng, rng.choice([0, 1, 4, 10, 30]), name.encode())
        text = b''.join(l + b'\n' for l in s)
        if rng.random() < .2 and s and s[-1]: text = text[:-1]
        p = subprocess.Popen([ed] + ([arg] if arg else []), cwd=d, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=goenv(), preexec_fn=bounded)
        p_in, p.stdin = p.stdin, None
        chunk = rng.choice([0, 1, 5, 50])
        def feed():
            try:
                if not chunk or len(text) > 400:
                    p_in.write(text)
                else:
                    for i in range(0, len(text), chunk):
                        p_in.write(text[i:i + chunk])
                        p_in.flush()
                        if i % 3 == 0: time.sleep(.0005)
                p_in.close()
            except (BrokenPipeError, OSError):
                pass
        t = threading.Thread(target=feed)
        t.start()
        fatal, out = None, b''
        try:
            out, _ = communicate(p)
        except Endless as e:
            fatal = str(e)
            hung += 1
        t.join()
        lines = ([b'e ' + arg.encode()] if arg else []) + s
        r = dict(script=[list(l) for l in lines], files0=[dict(n=list(name.encode()), d=list(data))], bad=[])
        if fatal or p.returncode not in (0,):
            r['fatal'] = fatal or 'exit %d' % p.returncode
        r['out'] = list(out)
        r['files'] = [dict(n=list(x.encode()), d=list(open(os.path.join(d, x), 'rb').read())) for x in sorted(os.listdir(d))]
        recs.append(r)
    return recs
