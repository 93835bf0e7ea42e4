"""Programs at rest with input that has come in part."""
import os, shutil, subprocess, tempfile, time
from concurrent.futures import ThreadPoolExecutor
from lib.harness import goenv, bounded
from props import edlib
from props.c18 import data
from props.c05 import script


class Talk:
    """A program that is given its input bit by bit and watched whenever it has come to rest."""

    def __init__(self, root, exe, case, settle):
        self.case, self.settle, self.out = case, settle, b''
        self.dir = tempfile.mkdtemp(dir=root)
        self.ends, self.late = {}, set()
        inp = subprocess.DEVNULL
        for s in case['srcs']:
            path = os.path.join(self.dir, s['n'] if s['n'] != '-' else '.in')
            if s.get('file'):
                with open(path, 'wb') as f: f.write(s['d'])
                continue
            os.mkfifo(path)
            self.ends[s['n']] = os.open(path, os.O_RDWR | os.O_NONBLOCK | os.O_CLOEXEC)
            if s['n'] == '-': inp = os.open(path, os.O_RDONLY | os.O_CLOEXEC)
        for n, d in case.get('files', []):
            with open(os.path.join(self.dir, n), 'wb') as f: f.write(d)
        self.err = open(self.dir + '.err', 'w+b')
        self.p = subprocess.Popen([exe] + case['args'], cwd=self.dir, stdin=inp, stdout=subprocess.PIPE, stderr=self.err, env=goenv(), preexec_fn=bounded)
        if inp != subprocess.DEVNULL: os.close(inp)
        self.fd = self.p.stdout.fileno()
        os.set_blocking(self.fd, False)

    def drain(self):
        some = False
        while True:
            try:
                b = os.read(self.fd, 1 << 16)
            except BlockingIOError:
                return some
            if not b: return some
            self.out += b
            some = True
            if len(self.out) > 4 << 20:
                self.p.kill()
                return some

    def signature(self):
        sig = []
        base = '/proc/%d/task' % self.p.pid
        try:
            for t in sorted(os.listdir(base)):
                for l in open('%s/%s/status' % (base, t)):
                    if l.startswith('State') and l.split()[1] != 'S': return None
                    if 'ctxt_switches' in l: sig.append((t, l))
        except OSError:
            return None
        return sig

    def opened(self):
        fds = '/proc/%d/fd' % self.p.pid
        names = set()
        try:
            for f in os.listdir(fds):
                try: names.add(os.path.basename(os.readlink(os.path.join(fds, f))))
                except OSError: pass
        except OSError: pass
        return names

    def rest(self, limit=30):
        """Waits until nothing goes on any more.  Says whether that came to be."""
        end = time.time() + limit
        since, last = time.time(), None
        while time.time() < end:
            if self.p.poll() is not None:
                self.drain()
                return True
            busy = self.drain()
            if self.late:
                for n in self.late & self.opened():     # the end can come once the program is there to see it
                    os.close(self.ends.pop(n))
                    self.late.discard(n)
                    busy = True
            sig = self.signature()
            if busy or sig is None or sig != last:
                since, last = time.time(), sig
            elif time.time() - since > self.settle:
                return True
            time.sleep(self.settle / 4)
        return False

    def give(self, n, b):
        while b:
            try:
                b = b[os.write(self.ends[n], b):]
            except BlockingIOError:
                raise RuntimeError('pipe full')

    def close(self, n):
        if n == '-':
            os.close(self.ends.pop(n))
        else:
            self.late.add(n)

    def run(self):
        case = self.case
        have = {s['n']: len(s['d']) if s.get('file') else 0 for s in case['srcs']}
        closed = {s['n']: bool(s.get('file')) for s in case['srcs']}
        full = {s['n']: s['d'] for s in case['srcs']}
        steps = []
        try:
            for group in [[]] + case['moves']:
                for n, k in group:
                    if closed[n]: continue
                    if k is None:
                        self.give(n, full[n][have[n]:])
                        have[n], closed[n] = len(full[n]), True
                        self.close(n)
                    else:
                        self.give(n, full[n][have[n]:have[n] + k])
                        have[n] = min(have[n] + k, len(full[n]))
                if not self.rest():
                    return dict(fatal='does not come to rest')
                ended = self.p.poll() is not None
                if ended and self.p.returncode < 0: return dict(fatal='signal %d' % -self.p.returncode)
                look = dict(len=[have[s['n']] for s in case['srcs']], closed=[closed[s['n']] for s in case['srcs']], out=self.out, ended=ended, rc=self.p.returncode if ended else 0)
                if 'files' in case:
                    look['files'] = [(f, open(os.path.join(self.dir, f), 'rb').read()) for f in sorted(os.listdir(self.dir)) if f != '.in']
                steps.append(look)
            return dict(steps=steps)
        finally:
            if self.p.poll() is None: self.p.kill()
            self.p.wait()
            self.p.stdout.close()
            self.err.close()
            for fd in self.ends.values(): os.close(fd)
            os.unlink(self.dir + '.err')
            shutil.rmtree(self.dir, ignore_errors=True)


def talk(c, exes, cases, settle):
    root = os.path.join(c.work, 'talk')
    os.makedirs(root, exist_ok=True)
    dead = []

    def one(k):
        if len(dead) > 8: return dict(fatal='not run: others before did not come to rest')
        r = Talk(root, exes[k['prog']], k, settle).run()
        if 'fatal' in r: dead.append(1)
        return r
    with ThreadPoolExecutor(16) as ex:
        return list(ex.map(one, cases))


def records(k, g):
    en = lambda x: list(os.fsencode(x))
    if k['prog'] != 'ed':
        r = dict(prog=k['prog'], args=[en(a) for a in k['args']], srcs=[dict(n=en(s['n']), d=list(s['d'])) for s in k['srcs']])
        return [dict(r, **g) if 'fatal' in g else dict(r, steps=[dict(s, out=list(s['out'])) for s in g['steps']])]
    first = [en('e ' + a) for a in k['args']]
    fs = lambda l: [dict(n=en(n), d=list(d)) for n, d in l]
    whole = k['srcs'][0]['d']
    base = dict(files0=fs(k['files']), bad=[])
    if 'fatal' in g: return [dict(base, script=first + [list(l) for l in whole.split(b'\n')], **g)]
    out = []
    for s in g['steps']:
        got = whole[:s['len'][0]].split(b'\n')
        if not s['closed'][0] or got[-1] == b'': got.pop()
        if s['ended'] and s['rc']: out.append(dict(base, script=first + [list(l) for l in got], fatal='exit %d' % s['rc']))
        out.append(dict(base, script=first + [list(l) for l in got], out=list(s['out']), files=fs(s['files']), now=dict(closed=s['closed'][0], ended=s['ended'])))
    return out


def show(r):
    if 'prog' not in r: return dict(edlib.show(r), now=r.get('now'))
    t = edlib.t
    o = dict(prog=r['prog'], args=[t(a) for a in r['args']], srcs={t(s['n']): t(s['d'][:300]) for s in r['srcs']})
    if 'fatal' in r: return dict(o, fatal=r['fatal'])
    return dict(o, steps=[dict(s, out=t(s['out'][:300])) for s in r['steps']])


def judge(c, exes, cases, settle):
    """The cases with a run that does not conform, and such a run."""
    got = talk(c, exes, cases, settle)
    bad = {}
    for mod, mine in (('PromptTrace', lambda k: k['prog'] != 'ed'), ('EdTrace', lambda k: k['prog'] == 'ed')):
        recs, whose = [], []
        for i, (k, g) in enumerate(zip(cases, got)):
            if mine(k):
                for r in records(k, g):
                    recs.append(r)
                    whose.append(i)
        if not recs: continue
        for j, d in c.judge(mod, recs):
            bad.setdefault(whose[j], (recs[j], d))
        c.sample(show(recs[len(recs) // 2]))
    return bad


def pieces(rng, srcs, looks):
    """Some order in which the sources arrive; the ends of some may stay away."""
    left = {s['n']: len(s['d']) for s in srcs if not s.get('file')}
    moves, open_ = [], set(left)
    for _ in range(looks):
        group = []
        for _ in range(rng.choice([1, 1, 2, 3])):
            if not open_: break
            n = rng.choice(sorted(open_))
            if left[n] == 0 or rng.random() < .1:
                if rng.random() < .7:
                    group.append((n, None))
                    open_.discard(n)
            else:
                k = rng.choice([1, 2, left[n] // 2 + 1, left[n], 4096, 512])
                k = min(k, left[n])
                left[n] -= k
                group.append((n, k))
        if group: moves.append(group)
    return moves


def check(c):
    rng = c.rng
    n = 3 if c.thorough else 2
    gen = c.model('PromptMC', 'CONSTANTS MaxLen = %d Alphabet = {10, 97}\nINIT Init\nNEXT Next\nINVARIANTS Final Emit\nPROPERTY Grows\n' % 2, 'two inputs of up to 2 bytes in every order of arrival, 8 command lines')
    cfg = 'CONSTANTS Max = %d Size = 2 Design = "%s"\nSPECIFICATION Spec\nINVARIANTS AtRest Never\nPROPERTIES Answers Ends\n'
    c.model('PromptDesign', cfg % (6 if c.thorough else 4, 'prompt'), 'reading what is there, answering at once: safety and liveness')
    for d in ('fill', 'late', 'ahead'): c.refuted('PromptDesign', cfg % (4, d), 'design "%s"' % d)
    cases = []
    for g in rng.sample(gen, 2500 if c.thorough else 300):
        mv = {1: ('p', 1), 2: ('q', 1), 3: ('p', None), 4: ('q', None)}
        cases.append(dict(prog=g['prog'], args=[bytes(a).decode() for a in g['args']], srcs=[dict(n='p', d=bytes(g['x'])), dict(n='q', d=bytes(g['y']))], moves=[[mv[h]] for h in g['h']]))
    c.extra['spec_behaviours_replayed'] = len(cases)
    size = lambda: rng.choice([1, 5, 60, 60, 700, 4096, 4097, 9000, 30000])
    for k in range(1500 if c.thorough else 240):
        prog = ('cat', 'head', 'cmp')[k % 3]
        if prog == 'cmp':
            x = data(rng, size(), rng.choice(['text', None]))
            y = bytearray(x)
            z = rng.random()
            if z < .6: y[rng.choice([0, len(y) - 1, rng.randrange(len(y))])] ^= 1
            if .4 < z < .8: y = y[:rng.randint(0, len(y))] if rng.random() < .5 else y + b'more'
            a = rng.choice([('p', 'q'), ('-', 'q'), ('p', '-'), ('p', 'f'), ('f', '-')])
            srcs = [dict(n=m, d=bytes(d), file=m == 'f') for m, d in zip(a, rng.sample([x, y], 2))]
            args = rng.choice([[], [], ['-s'], ['-l']]) + list(a)
            if sum(map(len, (x, y))) > 5000 and '-l' in args: args.remove('-l')
        else:
            srcs = [dict(n=m, d=data(rng, size() if m != 'f' else rng.choice([0, 5, 60]), 'text' if prog == 'head' else None), file=m == 'f') for m in rng.sample(['p', 'q', '-', 'f'], rng.choice([1, 1, 2, 3]))]
            args = [s['n'] for s in srcs]
            if rng.random() < .15: args.insert(rng.randint(0, len(args)), 'missing')
            if prog == 'cat':
                if args == ['-'] and rng.random() < .5: args = []
                args.insert(rng.randint(0, len(args)), '-u')
            else:
                if args == ['-'] and rng.random() < .5: args = []
                args = rng.choice([[], ['-n', '1'], ['-n', '3'], ['-n', '10'], ['-n', '40'], ['-n', '400']]) + args
        cases.append(dict(prog=prog, args=args, srcs=srcs, moves=pieces(rng, srcs, rng.choice([2, 4, 7]))))
    for k in range(600 if c.thorough else 120):
        name = rng.choice(['f', 'f', 'a file'])
        s = script(rng, rng.choice([3, 8, 20]), name.encode())
        srcs = [dict(n='-', d=b''.join(l + b'\n' for l in s))]
        moves = pieces(rng, srcs, 8)
        if k % 2:       # line by line
            ends = [i + 1 for i, ch in enumerate(srcs[0]['d']) if ch == 10][:10]
            moves = [[('-', b - a)] for a, b in zip([0] + ends, ends)]
        cases.append(dict(prog='ed', args=rng.choice([[], [name], ['missing']]), srcs=srcs, files=[(name, rng.choice([b'alpha\nbeta\ngamma\n', b'one', b'']))], moves=moves))
    exes = {p: c.build_cmd(p) for p in ('cat', 'head', 'cmp', 'ed')}
    bad = judge(c, exes, cases, .05)
    if bad:     # the machine may have been busy: once more, with patience
        again = [cases[i] for i in sorted(bad)[:24]]
        for r, d in judge(c, exes, again, 1.0).values():
            c.violation(show(r), d)
    c.extra['runs'] = len(cases)
