import os, shutil, subprocess, threading
from lib import cli
from lib.harness import goenv, bounded

FILES = {'a': bytes([1, 2]), 'b': bytes([3, 4, 5]), 'e': b'', 'dir': None}


def sizes(rng, thorough):
    base = [0, 1, 2, 511, 512, 4095, 4096, 4097, 32767, 32768, 32769, 65536]
    if thorough: base += [65535, 65537, 131072, 200001]
    return base


def data(rng, n, kind=None):
    kind = kind or rng.choice(['any', 'text', 'nul', 'nonl'])
    if kind == 'any': return rng.randbytes(n)
    if kind == 'nul': return bytes(rng.choice([0, 10, 13, 255, 26, 4]) for _ in range(n))
    if kind == 'nonl': return bytes(rng.choice(b'abc\r') for _ in range(n))
    return bytes(rng.choice(b'ab cd\n') for _ in range(n))


HOLE = 1 << 27      # symbol 3000


def holes(c, exe, rng):
    """More bytes than 32 bits count, nearly all of them in holes."""
    recs = []
    if c.free_memory() <= 20: return recs
    for n, way in ((17, 'operand'), (33, 'operand'), (33, 'stdin')):
        sym = [65, 66] + [3000] * n + [1, 2, 3]
        d = os.path.join(c.work, 'hole')
        os.mkdir(d)
        cli.Sparse([b'AB', n * HOLE, bytes([1, 2, 3])]).write(os.path.join(d, 'x'))
        with open(os.path.join(d, 'y'), 'wb') as f: f.write(b'Y\n')
        args = ['x', 'y'] if way == 'operand' else ['y', '-', 'y']
        with open(os.path.join(d, 'x'), 'rb') as inp:
            p = subprocess.Popen([exe] + args, cwd=d, stdin=inp if way == 'stdin' else subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=open(os.path.join(d, 'err'), 'wb'),
                                 env=goenv(), preexec_fn=lambda: bounded(20))
            guard = threading.Timer(200, p.kill)
            guard.start()
            out, zeros, none = [], 0, bytes(1 << 16)
            while True:
                b = os.read(p.stdout.fileno(), 1 << 16)
                if not b or b.count(0) == len(b):
                    zeros += len(b)
                else:
                    s = b.lstrip(b'\0')
                    zeros += len(b) - len(s)
                    t = s.rstrip(b'\0')
                    out += [3000] * (zeros // HOLE) + [0] * min(zeros % HOLE, 100000) + list(t[:1000])
                    zeros = len(s) - len(t)
                if not b or len(out) > 400000 or zeros > 60 * HOLE: break
            out += [3000] * (zeros // HOLE) + [0] * min(zeros % HOLE, 100000)
            if len(out) > 400000 or zeros > 60 * HOLE: p.kill()
            p.stdout.close()
            rc = p.wait()
            guard.cancel()
        err = open(os.path.join(d, 'err'), 'rb').read()[:10000]
        r = dict(args=[list(os.fsencode(a)) for a in args], stdin=sym if way == 'stdin' else [], files=[dict(n=[121], d=list(b'Y\n')), dict(n=[120], d=sym)],
                 out=out, err=list(err), rc=rc)
        if rc < 0: r['fatal'] = 'signal %d' % -rc
        recs.append(r)
        shutil.rmtree(d)
    c.extra['largest_input'] = 33 * HOLE
    return recs


def check(c):
    rng = c.rng
    n = 4 if c.thorough else 3
    gen = c.model('CatMC', 'CONSTANT MaxArgs = %d\nINIT Init\nNEXT Next\nINVARIANTS Prefix Right Emit\n' % n, 'all command lines of up to %d arguments, any pieces' % n)
    cases = [dict(args=[bytes(a) for a in g['args']], files=FILES, stdin=bytes([7, 8])) for g in gen]
    c.extra['spec_behaviours_replayed'] = len(cases)
    for k in range(400 if c.thorough else 80):
        fs = {'f%d' % i: data(rng, rng.choice([0, 1, 3, 50, 1000])) for i in range(rng.randint(0, 5))}
        fs['dir'] = None
        args = [rng.choice(list(fs) + ['-', '-', '-u', 'missing', './f0']) for _ in range(rng.choice([0, 1, 2, 3, 5, 9]))]
        if './f0' in args and 'f0' in fs: fs['./f0'] = fs['f0']
        elif './f0' in args: args = [a for a in args if a != './f0']
        cases.append(dict(args=args, files=fs, stdin=data(rng, rng.choice([0, 1, 200, 5000]))))
    for size in sizes(rng, c.thorough):
        x = data(rng, size)
        cases.append(dict(args=['x', 'y', 'x'], files={'x': x, 'y': b'end'}, stdin=b'unused'))
        cases.append(dict(args=rng.choice([[], ['-'], ['-u', '-', 'y'], ['-u']]), files={'y': b'Y\n'}, stdin=data(rng, size)))
    # many operands
    many = {'m%03d' % i: b'%d\n' % i for i in range(300)}
    cases.append(dict(args=list(many), files=many))
    # long ones, in blocks
    for n in (17, 40, 170):
        blk = lambda m: cli.Symbols(1000 + rng.randrange(9) if rng.random() < .8 else rng.randrange(256) for _ in range(m))
        cases.append(dict(args=['x', 'y', 'x'], files={'x': blk(n), 'y': b'end'}, stdin=b'unused'))
        cases.append(dict(args=['y', '-'], files={'y': blk(3)}, stdin=blk(n)))
    # input that arrives in pieces, and named pipes
    for k in range(12):
        x = data(rng, rng.choice([2, 30, 700, 5000]))
        cases.append(dict(args=rng.choice([[], ['-'], ['y', '-', 'y'], ['-u', '-']]), files={'y': b'Y\n'}, stdin=x, slow=max(len(x) // rng.randint(2, 9), 1)))
        cases.append(dict(args=rng.choice([['p'], ['y', 'p', 'y'], ['p', 'missing', 'y']]), files={'y': b'Y\n', 'p': cli.Fifo(x)}, stdin=b''))
    for k in range(8):
        x = data(rng, rng.choice([0, 30, 700, 5000, 70000]))
        cases.append(dict(args=rng.choice([[], ['-'], ['y', '-', 'y'], ['-u', '-']]), files={'y': b'Y\n'}, stdin=x, seek=rng.choice([0, 1, 5000])))
    for x in cli.kernels():
        cases.append(dict(args=rng.choice([['k'], ['y', 'k', 'k'], ['-u', 'k', 'y']]), files={'y': b'Y\n', 'k': x}))
    exe = c.build_cmd('cat')
    got = cli.run(c, exe, cases)
    recs = [cli.rec(k, g) for k, g in zip(cases, got)]
    recs += holes(c, exe, rng)
    for i, d in c.judge('CatTrace', recs):
        c.violation(cli.show(recs[i]), d)
    c.sample(cli.show(recs[30]), cli.show(recs[len(gen) + 2]))
