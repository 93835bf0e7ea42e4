import os, select, signal, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor
from lib.harness import goenv, Infra, VERIF, bounded, communicate, Endless

GONE = '99999999'
RECORDER = os.path.join(VERIF, 'drivers', 'kill', 'recorder.py')


class Proc:
    """A recorder process (and its way to us)."""

    def __init__(self, name, kind, pid, wr, rd, popen=None):
        self.name, self.kind, self.pid, self.wr, self.rd, self.popen = name, kind, pid, wr, rd, popen

    def line(self, deadline):
        buf = b''
        while not buf.endswith(b'\n'):
            r, _, _ = select.select([self.rd], [], [], 0.02)
            if r:
                x = os.read(self.rd, 4096)
                if not x:
                    return None
                buf += x
            elif self.popen is not None:
                try:
                    pid, st = os.waitpid(self.pid, os.WNOHANG | os.WUNTRACED)
                except ChildProcessError:
                    return None
                if pid and os.WIFSTOPPED(st):
                    return 'stop %d' % os.WSTOPSIG(st)
                if pid:
                    return 'died %d' % (os.WTERMSIG(st) if os.WIFSIGNALED(st) else 0)
            elif self.kind == 'own' and state(self.pid) == 'T':
                return 'stop 19'
            if time.time() > deadline:
                raise Infra('a recorder does not answer')
        return buf.decode().strip()

    def report(self):
        """(signals, still usable)"""
        try:
            os.write(self.wr, b'?')
        except BrokenPipeError:
            pass
        a = self.line(time.time() + 30)
        if a is None:
            if self.popen is not None:
                try:
                    _, st = os.waitpid(self.pid, 0)
                    return [os.WTERMSIG(st) if os.WIFSIGNALED(st) else 999], False
                except ChildProcessError:
                    pass
            return [999], False
        if a.startswith('stop') or a.startswith('died'):
            return [int(a.split()[1])], False
        return [int(x) for x in a.split()], True

    def end(self):
        try:
            os.kill(self.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        if self.popen is not None:
            try:
                os.waitpid(self.pid, 0)
            except ChildProcessError:
                pass
            self.popen.returncode = 0
        for f in (self.wr, self.rd):
            os.close(f)


def state(pid):
    try:
        return open('/proc/%d/stat' % pid).read().rsplit(')', 1)[1].split()[0]
    except OSError:
        return ''


class World:
    """Four processes that may be signalled: a (whose process group has another one in it), b and c,
    that other one, and one of the superuser's."""

    def __init__(self, uid):
        self.uid = uid
        self.procs = {}
        self.hung = 0
        self.spawn('a'); self.spawn('b'); self.spawn('c'); self.spawn('root')

    def spawn(self, name):
        import fcntl
        comp = name == 'a'
        n = 2 if comp else 1
        pipes = [os.pipe() for _ in range(2 * n)]
        # child's ends at 3.. : request read end, answer write end
        child = []
        for i in range(n):
            child += [pipes[2 * i][0], pipes[2 * i + 1][1]]
        # out of the way of the low numbers they are moved to
        high = [fcntl.fcntl(f, fcntl.F_DUPFD, 100) for f in child]
        sh = ' '.join('%d%s&%d' % (3 + i, '<' if i % 2 == 0 else '>', h) for i, h in enumerate(high))
        close = ' '.join('%d<&-' % h for h in high)
        kw = {} if name == 'root' else dict(user=self.uid, group=self.uid, extra_groups=[])
        # bash can redirect descriptors of more than one digit, dash cannot
        p = subprocess.Popen(['bash', '-c', 'exec %s %s; exec "$@"' % (sh, close), 'x', sys.executable, '-S', RECORDER] + (['with'] if comp else []),
                             stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, cwd='/', pass_fds=high, start_new_session=True, **kw)
        for f in child + high:
            os.close(f)
        q = Proc(name, 'foreign' if name == 'root' else 'own', p.pid, pipes[0][1], pipes[1][0], p)
        got = q.line(time.time() + 30)
        if got != str(p.pid):
            raise Infra('recorder %s says %r' % (name, got))
        self.procs[name] = q
        if comp:
            g = Proc('peer', 'own', 0, pipes[2][1], pipes[3][0])
            g.pid = int(g.line(time.time() + 30))
            self.procs['peer'] = g

    def pid(self, name):
        return str(self.procs[name].pid) if name in self.procs else name

    def run(self, exe, args):
        p = subprocess.Popen([exe] + args, env=goenv(), cwd='/', stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                             user=self.uid, group=self.uid, extra_groups=[], start_new_session=True, preexec_fn=bounded)
        rec = {}
        try:
            out, err = communicate(p, timeout=60 if not self.hung else 10 if self.hung < 3 else 1)
            rec = dict(out=list(out), err=list(err), rc=p.returncode)
        except Endless as e:
            self.hung += 1
            rec = dict(fatal=str(e), out=[], err=[], rc=0)
        rec['procs'] = []
        again = set()
        for n, q in list(self.procs.items()):
            got, alive = q.report()
            rec['procs'].append(dict(p=list(str(q.pid).encode()), kind=q.kind, got=got, name=n))
            if not alive:
                again.add('a' if n == 'peer' else n)
        for n in again:
            if n == 'a':
                self.procs.pop('peer').end()
            self.procs.pop(n).end()
            self.spawn(n)
        return rec

    def close(self):
        for q in self.procs.values():
            q.end()


def check(c):
    rng = c.rng
    n = 3
    base = 'CONSTANTS MaxOps = %d Hasty = %s Kind <- MCKind\nINIT Init\nNEXT Next\nINVARIANTS Right NothingYet NeverMore %s\n'
    gen = c.model('KillMC', base % (n, 'FALSE', 'Emit'), 'all command lines: 7 signal options x up to %d of 5 operands, word by word' % n, workers=1)
    c.refuted('KillMC', base % (2, 'TRUE', ''), 'signalling each operand as it is read')
    name = {'1': 'a', '2': 'b', '3': 'root', '4': GONE}
    cases = []
    for g in gen:
        a = [bytes(w).decode() for w in g['args']]
        cases.append([name.get(w, w) for w in a])
    few = [k for k in cases if len(k) <= 3]
    many = [k for k in cases if len(k) > 3]
    cases = few + (many if c.thorough else rng.sample(many, min(len(many), 250)))
    c.extra['spec_behaviours_replayed'] = len(cases)
    pids = ['a', 'b', 'c', 'peer']
    for s in ['HUP', 'INT', 'QUIT', 'ABRT', 'KILL', 'ALRM', 'TERM', '0']:
        for v in {s, s.lower(), s.capitalize(), ''.join(rng.choice([ch.lower(), ch.upper()]) for ch in s)}:
            cases += [['-s', v, 'a'], ['-s', v, 'c', 'root', 'b'], ['-s', v, 'b', 'x1']]
    for k in [0] + [k for k in range(1, 65) if k not in (32, 33)]:
        cases += [['-%d' % k, rng.choice(pids if k not in (9, 19) else pids[:3])],     # how the peer ends is not ours to see
                 ['-%d' % k, 'b'], ['-%d' % k, 'b', rng.choice([GONE, 'root']), 'c']]
    for k in (65, 66, 99, 100, 128, 255, 256, 1000, 65536):
        cases += [['-%d' % k, 'a', 'b']]
    for w in ['BOGUS', 'TER', 'TERMX', 'T', 'XTERM', 'HU P', ' TERM', 'TERM ', 'KIL', 'K\u0130LL', '-9', '-s', '\u017fTOP', 'TERM,HUP']:
        cases += [['-s', w, 'a'], ['-s', w, 'a', 'b', 'c']]
    for w in ['x', '12x', '1.5', '0x10', '99999999999999999999', '1 ', ' 1', '1,2', 'TERM', '\uff11', '1\n', 'a\u00e9', '%1']:
        cases += [['a', w], [w, 'a'], ['-s', 'HUP', 'b', w, 'c'], ['-40', 'a', 'b', w], ['-9', 'b', w]]
    cases += [[], ['-s'], ['-s', 'TERM'], ['-9'], ['-0'], ['-1x', 'a'], ['-x', 'a'], ['-TERMM', 'a'], ['-1.0', 'a']]
    for k in range(900 if c.thorough else 150):
        ops = [rng.choice(pids + ['root', GONE] + (['x'] if rng.random() < .1 else [])) for _ in range(rng.choice([1, 2, 3, 4, 6, 9, 30]))]
        opt = rng.choice([[], ['-%d' % rng.randrange(34, 65)], ['-%d' % rng.randrange(34, 65)], ['-s', rng.choice(['hup', 'INT', 'Quit', 'ALRM', 'term'])], ['-%d' % rng.choice([0, 1, 2, 3, 6, 10, 12, 14, 15, 18])]])
        cases.append(opt + ops)
    # long lists of distinct processes are out of reach, of repeated ones are not
    cases.append(['-50'] + ['a', 'b'] * 100)
    seen = set()
    cases = [k for k in cases if not (tuple(k) in seen or seen.add(tuple(k)))]
    rng.shuffle(cases)
    exe = c.build_cmd('kill')
    W = 8
    recs = [None] * len(cases)

    def lane(j):
        w = World(50000 + (os.getpid() * W + j) % 10000)
        try:
            for i in range(j, len(cases), W):
                args = [w.pid(a) for a in cases[i]]
                r = w.run(exe, args)
                r['args'] = [list(os.fsencode(a)) for a in args]
                recs[i] = r
        finally:
            w.close()
    with ThreadPoolExecutor(W) as ex:
        list(ex.map(lane, range(W)))
    for i, d in c.judge('KillTrace', recs, constants='CONSTANT Kind <- TraceKind\n'):
        r = recs[i]
        c.violation(dict(args=cases[i], rc=r['rc'], out=bytes(r['out']).decode('latin1'), err=bytes(r['err']).decode('latin1')[:300],
                         got={p['name']: p['got'] for p in r['procs']}), d)
    for i in range(3):
        c.sample(dict(args=cases[i], rc=recs[i]['rc'], got={p['name']: p['got'] for p in recs[i]['procs']}))
