import os, re, resource, shutil, signal, subprocess, threading
from concurrent.futures import ThreadPoolExecutor
from props import edlib
from props.c03 import text_line, random_edits
from lib.harness import goenv, Infra, bounded, communicate, Endless

INV = 'INIT Init\nNEXT Next\nINVARIANTS OldOrNew AnswerTrue FailureTrue ModeKept OthersKept\n'


def cfg(design, swp, pieces=3):
    return 'CONSTANTS Pieces = %d Design = "%s" SwpExists = %s\n' % (pieces, design, swp) + INV


FILES = [('f', b'one\ntwo\nthree\n', 0o640), ('g', b'other\nfile', 0o664), ('f.swp', b'mine\n', 0o600), ('big', b'', 0o666)]


def rand_script(rng):
    out = [b'e f'] if rng.random() < .7 else rng.choice([[], [b'e g'], [b'e big'], [b'e f', b'e g']])
    for _ in range(rng.choice([1, 3, 6, 12])):
        x = rng.random()
        if x < .35: out.append(rng.choice([b'w', b'w', b'1w', b'1,2w', b',w', b'$w', b'2,$w', b'.w']) + rng.choice([b'', b'', b'', b' f', b' g', b' new', b' new2', b' f.swp', b'  sp ace', b' \xc3\xa9', b' .dot', b' -x']))
        elif x < .45: out.append(b'e ' + rng.choice([b'f', b'g', b'new', b'big', b'missing', b'dir']))
        elif x < .7: out += [rng.choice([b'a', b'$a', b'0a', b'1i'])] + [text_line(rng) for _ in range(rng.randint(1, 3))] + [b'.']
        elif x < .8: out += [rng.choice([b'1d', b'$d', b',d', b'1,2d', b'd'])]
        elif x < .9: out += [rng.choice([b'1c', b'$c', b',c']), text_line(rng), b'.']
        else: out.append(rng.choice([b'w dir', b'w no/where', b'99w', b'2,1w', b'.=', b',n', b'0w', b'0,1w', b'w !cat', b'/zz/w']))
    return out + rng.choice([[], [b'.='], [b'w', b',n'], [b'w last']])


# ------------------------------------------------------------------ faults
CALLS = ['openat', 'open', 'creat', 'write', 'pwrite64', 'writev', 'close', 'rename', 'renameat', 'renameat2', 'unlink', 'unlinkat', 'chmod', 'fchmod',
         'fchmodat', 'fchmodat2', 'ftruncate', 'truncate', 'fsync', 'fdatasync', 'link', 'linkat', 'symlinkat', 'newfstatat', 'fstat', 'statx', 'stat', 'lstat',
         'copy_file_range', 'sendfile', 'splice', 'fallocate', 'read', 'pread64', 'lseek', 'fcntl', 'mkdirat', 'fchownat', 'fchown', 'utimensat', 'flock']
ERRS = {'openat': ['ENOSPC', 'EACCES'], 'write': ['ENOSPC', 'EIO'], 'close': ['EIO'], 'rename': ['EXDEV', 'EACCES'], 'fchmodat': ['EPERM'],
        'unlinkat': ['EACCES'], 'newfstatat': ['EIO', 'EACCES'], 'fsync': ['EIO'], 'read': ['EIO'], 'ftruncate': ['EIO', 'ENOSPC'], 'chmod': ['EPERM']}
ALIAS = {'renameat': 'rename', 'renameat2': 'rename', 'fchmod': 'fchmodat', 'fchmodat2': 'fchmodat', 'open': 'openat', 'creat': 'openat', 'pwrite64': 'write', 'writev': 'write',
         'unlink': 'unlinkat', 'stat': 'newfstatat', 'lstat': 'newfstatat', 'statx': 'newfstatat', 'fstat': 'newfstatat', 'fdatasync': 'fsync', 'truncate': 'ftruncate',
         'pread64': 'read', 'copy_file_range': 'write', 'sendfile': 'write', 'linkat': 'rename', 'link': 'rename'}

SESSIONS = [
    ([b'e f', b'1d', b'$a', b'four', b'', b'.', b'w', b',p', b'=', b'w', b'q'], FILES[:2]),
    ([b'a', b'new text', b'.', b'w h', b',p', b'w', b'1i', b'more', b'.', b'w g', b'q'], FILES[:2]),
    ([b'e g', b'1,1w f', b'$c', b'X', b'.', b'w', b'w', b'=', b'e f', b',n', b'q'], FILES[:3]),
]


class Fault:
    def __init__(self, c, ed):
        self.c, self.ed, self.n, self.hung = c, ed, 0, 0

    def run(self, lines, files, inject=(), fsize=None, log=True):
        """One run of the program under strace; returns the record and the log."""
        self.n += 1
        d = os.path.join(self.c.work, 'flt%d_%d' % (self.n, abs(hash((tuple(lines), tuple(inject), fsize)))))
        os.mkdir(d)
        w = os.path.join(d, 'w')
        os.mkdir(w)
        for n, data, m in files:
            p = os.path.join(w, n)
            open(p, 'wb').write(data)
            os.chmod(p, m)
        cmd = [self.ed]
        if log:
            cmd = ['strace', '-f', '-y', '-s', '8', '-o', os.path.join(d, 'log'), '-e', 'trace=' + ','.join('?' + x for x in CALLS)] + \
                  sum((['-e', 'inject=' + i] for i in inject), []) + ['--'] + cmd
        e = dict(goenv(), GOMAXPROCS='1')

        def pre():
            os.umask(0o027)
            bounded()
            if fsize is not None:
                resource.setrlimit(resource.RLIMIT_FSIZE, (fsize, fsize))
        inp = b''.join(l + b'\n' for l in lines)
        with open(os.path.join(d, 'in'), 'wb') as f:
            f.write(inp)
        with open(os.path.join(d, 'in'), 'rb') as fi:
            p = subprocess.Popen(cmd, cwd=w, stdin=fi, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=e, preexec_fn=pre, start_new_session=True)
            try:
                out, _ = communicate(p, timeout=90 if self.hung < 3 else 10 if self.hung < 8 else 1)
                fatal = None
            except Endless as e:
                self.hung += 1
                out, fatal = b'', str(e)
                try:
                    os.killpg(p.pid, signal.SIGKILL)      # strace's child, if it is left
                except ProcessLookupError:
                    pass
        got = []
        for x in sorted(os.listdir(os.fsencode(w))):
            q = os.path.join(os.fsencode(w), x)
            got.append(dict(n=list(x), d=list(open(q, 'rb').read()), m=os.stat(q).st_mode & 0o7777))
        text = open(os.path.join(d, 'log'), errors='replace').read() if log else ''
        shutil.rmtree(d)
        hit = [l for l in text.splitlines() if '(INJECTED)' in l]
        noout = any(re.search(r'\b\w+\([012]<', l) for l in hit)
        rec = dict(script=[list(l) for l in lines], files0=[dict(n=list(n.encode()), d=list(x), m=m) for n, x, m in files], out=list(out), files=got,
                   killed=1 if p.returncode in (-9, 137) and fatal is None and any('signal=' in i for i in inject) else 0,
                   faults=max(len(inject), len(hit)) + (9 if fsize is not None else 0), noout=int(noout), fault=' '.join(inject) + (' fsize=%d' % fsize if fsize is not None else ''))
        if fatal or (not rec['killed'] and p.returncode != 0):
            rec['fault'] += ' -> ' + (fatal or 'exit %d' % p.returncode)
            rec['noout'] = 0
            rec['out'] = list(b'<died>')
            if '+++ killed by' in text and fatal is None:
                raise Infra('run ended oddly: ' + text[-500:])
        return rec, text, w


def calls_in(text, work, after_fault=False):
    """Occurrences (call, n-th of its kind in its thread) of calls that concern the
    scratch directory; after_fault: only those between a failed call and the next answer."""
    seen, out = {}, []
    on = not after_fault
    for l in text.splitlines():
        m = re.match(r'(\d+) +(\w+)\((.*)', l)
        if not m:
            continue
        key = (m.group(1), m.group(2))
        seen[key] = seen.get(key, 0) + 1
        args = m.group(3)
        if after_fault:
            if '(INJECTED)' in l:
                on = True
                continue
            if on and m.group(2) in ('write', 'writev') and args.startswith('1<'):
                break
        if not on:
            continue
        if re.match(r'[012]<', args) or '"/' in args.split(')')[0] or '</proc' in args or '</sys' in args:
            continue
        if work in args:
            out.append((m.group(2), seen[key]))
    return out


def faults(c, ed):
    rng = c.rng
    f = Fault(c, ed)
    jobs = []
    for lines, files in SESSIONS:
        rec, text, w = f.run(lines, files)
        if not text:
            raise Infra('strace gave no log')
        calls = calls_in(text, w)
        if not any(x[0] in ('openat', 'open') for x in calls):
            raise Infra('no file calls seen:\n' + text[:2000])
        jobs.append((lines, files, ()))
        for call, n in calls:
            if call in ('read', 'fcntl', 'lseek') and not c.thorough and rng.random() < .5:
                continue
            jobs.append((lines, files, ('%s:signal=KILL:when=%d' % (call, n),)))
            for e in ERRS.get(ALIAS.get(call, call), ['EIO']):
                if call in ('fcntl', 'lseek'):
                    continue
                jobs.append((lines, files, ('%s:error=%s:when=%d' % (call, e, n),)))
    with ThreadPoolExecutor(8) as ex:
        got = list(ex.map(lambda j: f.run(*j), jobs))
    recs = [r[0] for r in got]
    # a failed call and then a kill at each call before the next answer
    second = []
    for (lines, files, inject), (rec, text, w) in zip(jobs, got):
        if inject and 'error=' in inject[0]:
            failed = inject[0].split(':')[0]
            for call, n in calls_in(text, w, True):
                # strace keeps one expression for each call, so the calls must differ
                if call != failed:
                    second.append((lines, files, (inject[0], '%s:signal=KILL:when=%d' % (call, n))))
    if not c.thorough and len(second) > 500:
        second = rng.sample(second, 500)
    with ThreadPoolExecutor(8) as ex:
        recs += [r[0] for r in ex.map(lambda j: f.run(*j), second)]
    c.extra['kill_after_fault_runs'] = len(second)
    hits = sum(1 for r in recs if r['killed']), sum(1 for r in recs if not r['killed'])
    # files that grow beyond a limit: writes that succeed in part
    more = []
    old = b'old content\n' * 300
    for size in (0, 1, 4096, 8192, 16384):
        more.append(([b'e f', b'1d', b'$a'] + [b'line %d' % i for i in range(600)] + [b'.', b'w', b'=', b'1w', b'w h', b'.=', b'q'], [('f', old, 0o640), ('g', b'x\n', 0o600)], size))
    with ThreadPoolExecutor(4) as ex:
        recs += [r[0] for r in ex.map(lambda j: f.run(j[0], j[1], fsize=j[2], log=False), more)]
    c.extra['kill_points_hit'], c.extra['fault_runs'] = hits
    return recs


def changing(c, ed, n):
    """The file is changed in place, by someone else, once e has been answered."""
    rng, recs, hung = c.rng, [], 0
    for k in range(n):
        d = os.path.join(c.work, 'chg%d' % k)
        os.mkdir(d)
        data = b''.join(b'line %d of the file\n' % i for i in range(rng.choice([1, 3, 50, 900])))
        path = os.path.join(d, 'f')
        open(path, 'wb').write(data)
        os.chmod(path, 0o644)
        p = subprocess.Popen([ed], cwd=d, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=goenv(), preexec_fn=bounded)
        timer = threading.Timer(60 if hung < 3 else 3, p.kill)
        timer.start()
        out = b''
        lines = [b'e f'] + ([b'1d'] if rng.random() < .5 else [])
        try:
            for l in lines:
                p.stdin.write(l + b'\n')
                p.stdin.flush()
                out += p.stdout.read(1)
            with open(path, 'r+b') as f:
                x = rng.random()
                if x < .4: f.write(b'CHANGED')
                elif x < .7: f.truncate(rng.choice([0, 5, len(data) // 2]))
                else:
                    f.seek(0, 2)
                    f.write(b'appended\n')
            more = rng.choice([[b',p', b'$='], [b'$p', b'1a', b'x', b'.', b'1,3n'], [b'w', b',p', b'.=']]) + [b'w'] * rng.randint(0, 1) + [b'q']
            rest, _ = communicate(p, b''.join(l + b'\n' for l in more))
            out += rest
            if p.returncode: raise Endless('exit %d' % p.returncode)
            r = dict(script=[list(l) for l in lines + more], files0=[dict(n=[102], d=list(data), m=0o644)], out=list(out), bad=[])
            if b'w' in more:
                r['files'] = [dict(n=list(x.encode()), d=list(open(os.path.join(d, x), 'rb').read()), m=os.stat(os.path.join(d, x)).st_mode & 0o777) for x in os.listdir(d)]
        except (Endless, BrokenPipeError) as e:
            hung += 1
            p.kill()
            p.wait()
            r = dict(script=[list(l) for l in lines], files0=[dict(n=[102], d=list(data), m=0o644)], fatal=repr(e), out=[], bad=[])
        timer.cancel()
        recs.append(r)
    return recs


def check(c):
    rng = c.rng
    for swp in ('TRUE', 'FALSE'):
        c.model('EdWrite', cfg('rename', swp, 6 if c.thorough else 3), 'temporary file and rename: any call fails, any kill point')
    c.refuted('EdWrite', cfg('inplace', 'FALSE'), 'truncate and write')
    c.refuted('EdWrite', cfg('swp', 'TRUE'), 'fixed temporary name')
    c.refuted('EdWrite', cfg('nomode', 'FALSE'), 'permissions not carried over')

    # what is written and read
    scen = []
    cmds = [[x] for x in (b'w', b'1w', b'1,2w', b'$w', b'w g', b'2,$w g', b'w', b'e f', b'e g', b'1d', b'$d', b'.=')] + [[b'a', b'x', b'.'], [b'$c', b'y', b'', b'.']]
    scen += edlib.explore(c, cmds, [b'', b'a', b'a\nb\n'], 3 if c.thorough else 2, 'scripts with w and e')
    for k in range(4000 if c.thorough else 700):
        scen.append(edlib.scenario(rand_script(rng), FILES, ['dir'], via=rng.randint(0, 1)))
    for k in range(300 if c.thorough else 60):
        s, data = random_edits(rng, rng.choice([3, 10]))
        scen.append(edlib.scenario(s + [b'w', b'w copy', b'1,2w part', b'e part', b',n'], [('f', data, [0o600, 0o644, 0o755, 0o444, 0o666, 0o640, 0o2755, 0o4711, 0o1644, 0o6750, 0o777, 0o7777][k % 12])]))
    for size in (4095, 4096, 65536, 131073):
        data = bytes(rng.choice(b'ab' * 60 + b'\n') for _ in range(size))
        scen.append(edlib.scenario([b'e f', b'1d', b'w', b'w g', b'e g', b'.=', b'$p'], [('f', data, 0o600)]))
    # a small change to a long file, which keeps its size
    for size in (700, 2000, 7000):
        rows = [b'%06d' % i for i in range(size)]
        data = b'\n'.join(rows) + rng.choice([b'', b'\n'])
        script = [b'e f']
        for at in (1, size, size // 2, rng.randint(1, size), size - 1):
            script += [b'%dc' % at, rng.choice([b'x', b'\0', b'9']) * 6, b'.', rng.choice([b'w', b'w', b'w f'])]
            if rng.random() < .4: script += [b'e f', b'%dp' % at]
        for k in range(2, len(script) + 1):
            if script[k - 1] in (b'w', b'w f') and (size == 700 or k == len(script)):
                scen.append(edlib.scenario(script[:k], [('f', data, 0o644)]))
    for s in scen:
        s['bad'] = [list(b'no/where')]
    recs, got = edlib.run(c, scen)
    c.sample(edlib.show(recs[200]), edlib.show(recs[-20]))

    if c.violations: return
    ed = c.build_cmd('ed')
    frecs = faults(c, ed)
    for i, d in c.judge('EdFault', frecs):
        c.violation(edlib.show(frecs[i]), d)
    if c.violations: return
    # a file that changes after it was read
    crecs = changing(c, ed, 60 if c.thorough else 16)
    edlib.judge(c, crecs)
    c.extra['runs_with_file_changed_from_outside'] = len(crecs)
    c.sample(dict(edlib.show(frecs[20]), fault=frecs[20]['fault']))
