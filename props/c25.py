import os, resource, shutil, subprocess, signal
from concurrent.futures import ThreadPoolExecutor
from lib.harness import goenv, Infra, bounded, communicate, Endless

CALLS = 'write,writev,pwrite64,sendfile,splice,copy_file_range'


def cases(rng, thorough):
    """[program, arguments, files, standard input, environment, statuses that tell of trouble]"""
    rows = lambda n, t=b'': b''.join(b'%s%d\n' % (t, i) for i in range(n))
    small = {'a': rows(9), 'b': rows(7, b'x'), 'e': b'', 'nonl': b'no\nend', 'z': b'\0\xff\n\n'}
    big = dict(small, big=rows(9000, b'line '), wide=b'w' * 70000 + b'\nshort\n' + b'v' * 9000)
    out = []
    add = lambda p, args, files=small, stdin=b'', env=None, trouble=(): out.append((p, args, files, stdin, env, list(trouble)))
    for args in (['a'], ['a', 'b'], ['-u', 'nonl'], ['e'], ['e', 'a', 'e'], ['z', 'nonl', 'a', 'z']): add('cat', args)
    add('cat', [], stdin=rows(40))
    add('cat', ['a', '-', 'b'], stdin=b'in\n')
    add('cat', ['big'], big); add('cat', ['a', 'big', 'wide', 'b'], big); add('cat', [], big, rows(20000))
    for args in (['a'], ['a', 'b', 'e', 'z', 'a'], ['e']): add('cksum', args)
    add('cksum', [], stdin=rows(40))
    add('cksum', ['a', '-', 'b'], stdin=b'x')
    add('cksum', ['a'] * 40 + ['b'])
    for args in (['a'], ['-n', '3', 'a'], ['a', 'b'], ['-n', '0', 'a', 'b', 'z'], ['e', 'e'], ['e', 'a', 'nonl'], ['-n', '1', 'a', 'b', 'z', 'e']): add('head', args)
    add('head', [], stdin=rows(40))
    add('head', ['-n', '400', 'big', 'wide', 'big'], big); add('head', ['wide', 'a'], big)
    chain = b''.join(b'n%d n%d\n' % (i, i + 1) for i in range(12))
    add('tsort', [], stdin=chain); add('tsort', ['c'], dict(c=chain)); add('tsort', [], stdin=b'a a'); add('tsort', [], stdin=b'')
    add('tsort', ['c'], dict(c=b''.join(b'%s%d %s%d\n' % (b'm' * 500, i, b'm' * 500, i + 1) for i in range(30))))
    for env in ({}, dict(LANG='C'), dict(LC_ALL='x' * 9000, LANG='en'), dict(LC_TIME='t', LANG='C.UTF-8')): add('locale', [], env=env)
    for args in (['a', 'b'], ['a', 'a'], ['a', 'e'], ['e', 'nonl'], ['-u', 'a', 'b'], ['nonl', 'z']): add('diff', args, trouble=[2])
    add('diff', ['big', 'a'], dict(small, big=rows(3000, b'q')), trouble=[2])
    flip = lambda d: bytes(x ^ 1 for x in d)
    two = dict(small, c=flip(small['a']), d=small['a'][:4] + b'#' + small['a'][5:])
    for args in (['a', 'c'], ['-l', 'a', 'c'], ['-l', 'a', 'd'], ['a', 'd'], ['a', 'a'], ['-l', 'a', 'a'], ['-s', 'a', 'c']): add('cmp', args, two, trouble=[2])
    add('cmp', ['-l', 'p', 'q'], dict(p=rows(300), q=flip(rows(300))), trouble=[2])
    for _ in range(30 if thorough else 6):
        n = rng.randint(1, 5)
        fs = {'f%d' % i: bytes(rng.choice(b'abc\n') for _ in range(rng.choice([0, 1, 5, 60, 5000]))) for i in range(n)}
        add('cat', list(fs), fs); add('head', ['-n', '%d' % rng.randint(0, 30)] + list(fs), fs); add('cksum', list(fs), fs)
    return out


class Runner:
    def __init__(self, c, exes):
        self.c, self.exes, self.hung, self.n = c, exes, 0, 0

    def run(self, case, sink, room=-1, inject=None):
        """sink: file (takes room bytes), full (/dev/full), broken (a pipe nobody reads)"""
        prog, args, files, stdin, env, trouble = case
        self.n += 1
        d = os.path.join(self.c.work, 'o%d_%d' % (self.n, id(case)))
        while os.path.exists(d): d += '_'
        w = d + '/w'
        os.makedirs(w)
        for n, data in files.items():
            open(os.path.join(w, n), 'wb').write(data)
        open(d + '/in', 'wb').write(stdin)
        cmd = [self.exes[prog]] + args
        if inject:
            cmd = ['strace', '-f', '-s', '8', '-P', d + '/out', '-o', d + '/log', '-e', 'trace=' + CALLS, '-e', 'inject=%s:%s' % (CALLS, inject), '--'] + cmd

        def pre():
            bounded()
            signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
            signal.signal(signal.SIGPIPE, signal.SIG_DFL)
            if sink == 'file' and room >= 0:
                resource.setrlimit(resource.RLIMIT_FSIZE, (room, room))
        if sink == 'broken':
            rd, wr = os.pipe()
            os.close(rd)
        else:
            wr = os.open('/dev/full' if sink == 'full' else d + '/out', os.O_WRONLY | os.O_CREAT, 0o600)
        e = goenv() if env is None else dict(env, GOMAXPROCS='1')
        rec = dict(prog=prog, args=args, room=0 if sink != 'file' else room, sink=sink, fault=False, how=inject or '', trouble=trouble)
        with open(d + '/in', 'rb') as fi:
            # what goes to standard error is read from a pipe: the limit is for the output only
            p = subprocess.Popen(cmd, cwd=w, stdin=fi, stdout=wr, stderr=subprocess.PIPE, env=e, preexec_fn=pre, restore_signals=False, start_new_session=True)
            os.close(wr)
            try:
                err = said(p, 60 if self.hung < 3 else 5 if self.hung < 8 else 1)
                rec.update(rc=p.returncode, err=bool(err), signal=p.returncode < 0)
            except Endless as x:
                self.hung += 1
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except ProcessLookupError:
                    pass
                p.wait()
                rec.update(fatal=str(x), rc=0, err=False, signal=False)
        rec['got'] = list(open(d + '/out', 'rb').read()[:400000]) if sink == 'file' else []
        calls = 0
        if inject:
            log = open(d + '/log', errors='replace').read() if os.path.exists(d + '/log') else ''
            rec['fault'] = '(INJECTED)' in log
            calls = log.count('\n')
        shutil.rmtree(d)
        return rec, calls


def said(p, timeout):
    try:
        return p.communicate(timeout=timeout)[1]
    except subprocess.TimeoutExpired:
        p.kill()
        raise Endless('does not end')


def check(c):
    rng = c.rng
    for design in ('stops', 'goes on'):
        c.model('Output', 'CONSTANTS Pieces = %d MaxLen = 2 Design = "%s"\nINIT Init\nNEXT Next\nINVARIANTS Honest NoHole\n' % (4 if c.thorough else 3, design),
                'any room, any write fails: ' + design)
    for design in ('last', 'ignores'):
        c.refuted('Output', 'CONSTANTS Pieces = 3 MaxLen = 2 Design = "%s"\nINIT Init\nNEXT Next\nINVARIANTS Honest NoHole\n' % design, design)
    exes = {p: c.build_cmd(p) for p in ('cat', 'cksum', 'cmp', 'diff', 'head', 'locale', 'tsort')}
    run = Runner(c, exes)
    todo = cases(rng, c.thorough)
    with ThreadPoolExecutor(10) as ex:
        free = list(ex.map(lambda k: run.run(k, 'file')[0], todo))
        jobs = []
        for k, f in zip(todo, free):
            if 'fatal' in f: continue
            n = len(f['got'])
            rooms = {0, 1, n - 1, n + 1, n + 9, n // 2} | {rng.randint(0, n) for _ in range(20 if c.thorough else 4)}
            if n > 4096: rooms |= {4095, 4096, 4097, n - n % 4096}
            if n > 32768: rooms |= {32768, 65536}
            nl = [i for i, x in enumerate(f['got']) if x == 10]
            for i in rng.sample(nl, min(len(nl), 12 if c.thorough else 4)): rooms |= {i, i + 1}
            jobs += [(k, f, 'file', m, None) for m in sorted(rooms) if m >= 0 and m != n]      # a call more when there is no room left may fail
            if n: jobs += [(k, f, 'full', 0, None), (k, f, 'broken', 0, None)]      # a write of nothing may fail there
            # one write that fails, the first ones and some later ones
            whens = [1, 2, 3, 4] + ([rng.randint(5, 40) for _ in range(6 if c.thorough else 2)] if n > 200 else [])
            for w in whens:
                jobs.append((k, f, 'file', -1, 'error=%s:when=%d' % (rng.choice(['ENOSPC', 'ENOSPC', 'EIO', 'EDQUOT', 'EFBIG']), w)))
            jobs.append((k, f, 'file', -1, 'error=ENOSPC:when=%d+' % rng.choice([1, 2, 3, 9])))
        recs, hits = [], 0
        for (k, f, *_), (r, _) in zip(jobs, ex.map(lambda j: run.run(j[0], *j[2:]), jobs)):
            r.update(all=f['got'], ok=f['rc'])
            hits += r['fault']
            recs.append(r)
    for f in free:
        f.update(all=f['got'], ok=f['rc'])
    recs += [f for f in free if 'fatal' in f]
    if not hits:
        raise Infra('no fault was injected')
    c.extra['writes_made_to_fail'] = hits
    c.extra['runs_without_room'] = sum(1 for r in recs if 0 <= r['room'] < len(r['all']))

    def show(r):
        return dict(r, got=len(r['got']), all=bytes(r['all'][:200]).decode('latin1'), bytes=len(r['all']))
    for i, d in c.judge('OutputTrace', recs):
        c.violation(show(recs[i]), d)
    c.sample(show(recs[3]), show(recs[len(recs) // 2]), show(recs[-1]))
