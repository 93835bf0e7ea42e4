"""Shared machinery: build the code under test, run TLC, write evidence, report.

A check
  1. has TLC explore the specification of its part exhaustively within small
     bounds, and takes behaviours/inputs from that exploration,
  2. drives the real code (built from /repo's working tree) with them and with
     seeded random and large ones, and records what the code did,
  3. has TLC judge every recorded execution against the specification.
Only step 3 can raise a violation.  Anything that goes wrong in the machinery
itself is an error exit (2), never a violation.
"""
import json, os, random, re, resource, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
SPEC = os.path.join(VERIF, 'spec')
JARS = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
GOBIN = '/opt/veriftools/go1.27.3/bin'
MODULE = 'github.com/fwip/posix-utils'


MUCH = 40 << 20         # bytes of records TLC is given at a time

if os.environ.get('VERIF_SIZES'):
    MUCH = 1 << 40


class Infra(Exception):
    """The machinery failed; says nothing about the code."""


class Finding(Exception):
    pass


def goenv():
    e = {k: v for k, v in os.environ.items()
         if k not in ('GOWORK', 'GOENV', 'GOOS', 'GOARCH', 'GOPATH', 'GOMODCACHE', 'GOCACHE', 'GOMAXPROCS', 'GODEBUG')}
    e.update(HOME='/root', PATH=GOBIN + ':/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin',
             GOTOOLCHAIN='local', GOFLAGS='-mod=mod', GOPROXY='off')
    return e


def bounded(gb=6):
    """For a child: code that allocates without end dies, and the machine does not."""
    resource.setrlimit(resource.RLIMIT_AS, (gb << 30, gb << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


class Endless(Exception):
    pass


def communicate(p, data=b'', timeout=60, limit=200 << 20, slow=0):
    """What p.communicate does, but bounded in output too.  Kills p and raises Endless if it does not end."""
    import selectors, threading
    def feed():
        try:
            if slow:
                for i in range(0, len(data), slow):      # in pieces
                    p.stdin.write(data[i:i + slow])
                    p.stdin.flush()
                    time.sleep(.002)
            else:
                p.stdin.write(data)
            p.stdin.close()
        except OSError:
            pass
    t = None
    if p.stdin is not None:
        t = threading.Thread(target=feed, daemon=True)
        t.start()
    got = {}
    sel = selectors.DefaultSelector()
    for name in ('stdout', 'stderr'):
        f = getattr(p, name)
        got[name] = []
        if f is not None:
            sel.register(f, selectors.EVENT_READ, name)
    end = time.time() + timeout
    total = 0
    try:
        while sel.get_map():
            left = end - time.time()
            if left <= 0:
                raise Endless('hang')
            for key, _ in sel.select(left):
                x = os.read(key.fileobj.fileno(), 1 << 16)
                if not x:
                    sel.unregister(key.fileobj)
                got[key.data].append(x)
                total += len(x)
            if total > limit:
                raise Endless('output without end')
        try:
            p.wait(max(end - time.time(), 1))
        except subprocess.TimeoutExpired:
            raise Endless('hang')
    except Endless:
        p.kill()
        p.wait()
        raise
    finally:
        sel.close()
        for name in ('stdout', 'stderr'):
            if getattr(p, name) is not None:
                getattr(p, name).close()
        if t is not None:
            t.join(5)
    return b''.join(got['stdout']), b''.join(got['stderr'])


class Check:
    def __init__(self, pid):
        self.pid = pid
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        if self.tier not in ('quick', 'thorough'):
            self.tier = 'quick'
        try:
            self.seed = int(os.environ.get('VERIF_SEED', '1'))
        except ValueError:
            self.seed = 1
        self.rng = random.Random(f'{pid}/{self.seed}')
        self.thorough = self.tier == 'thorough'
        self.work = tempfile.mkdtemp(prefix=f'verif-{pid}-')
        os.chmod(self.work, 0o755)
        self.t0 = time.time()
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.samples = []
        self.extra = {}
        self.assumptions = []
        self.violations = []
        self.known = load_known(pid)
        self.models = []

    # ---------------------------------------------------------------- build
    def _go_build(self, out, target, overlay=None):
        cmd = ['go', 'build', '-o', out]
        if overlay:
            cmd += ['-overlay', overlay]
        cmd.append(target)
        try:
            p = subprocess.run(cmd, cwd=REPO, env=goenv(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=600)
        except subprocess.TimeoutExpired:
            raise Infra('go build timed out')
        if p.returncode:
            raise Infra('go build %s failed:\n%s' % (target, p.stdout.decode('utf8', 'replace')[-3000:]))
        return out

    def build_driver(self, name):
        """Builds /verif/drivers/<name>/*.go as a main package inside the module."""
        src = os.path.join(VERIF, 'drivers', name)
        rep = {}
        for f in sorted(os.listdir(src)):
            if f.endswith('.go'):
                rep[os.path.join(REPO, 'verifdriver_' + name, f)] = os.path.join(src, f)
        common = os.path.join(VERIF, 'drivers', 'common')
        for f in sorted(os.listdir(common)):
            rep[os.path.join(REPO, 'verifdriver_' + name, f)] = os.path.join(common, f)
        inpkg = os.path.join(src, 'inpkg.json')
        if os.path.exists(inpkg):
            for dst, f in json.load(open(inpkg)).items():
                rep[os.path.join(REPO, dst)] = os.path.join(src, f)
        ov = os.path.join(self.work, name + '.overlay.json')
        json.dump({'Replace': rep}, open(ov, 'w'))
        return self._go_build(os.path.join(self.work, 'drv_' + name), './verifdriver_' + name, ov)

    def build_cmd(self, name):
        return self._go_build(os.path.join(self.work, 'cmd_' + name), './cmd/' + name)

    # --------------------------------------------------------------- driver
    def drive(self, exe, scenarios, timeout=600, args=(), env=None):
        """Feeds scenarios (one JSON per line) to a driver, returns one record for each.

        The driver works through them in order and answers each with one line.  A
        scenario in which the code panics is answered with {"fatal": ...}; one that
        takes the whole driver down (fatal runtime error, hang) is tried once more
        on its own, and if it does so again that is its record."""
        if len(scenarios) < 400:
            return self._drive_all(exe, scenarios, timeout, args, env, 'a')
        from concurrent.futures import ThreadPoolExecutor
        n = 8
        cut = [len(scenarios) * i // n for i in range(n + 1)]
        with ThreadPoolExecutor(n) as ex:
            parts = list(ex.map(lambda i: self._drive_all(exe, scenarios[cut[i]:cut[i + 1]], timeout, args, env, str(i)), range(n)))
        return [r for p in parts for r in p]

    def _drive_all(self, exe, scenarios, timeout, args, env, tag):
        recs = []
        deaths = 0
        while len(recs) < len(scenarios):
            got, how = self._drive_once(exe, scenarios[len(recs):], timeout, args, env, tag)
            recs += got
            if len(recs) >= len(scenarios):
                break
            deaths += 1
            again, how2 = self._drive_once(exe, [scenarios[len(recs)]], timeout, args, env, tag)
            if not again:
                recs.append({'fatal': how2})
            elif 'fatal' in again[0] or deaths == 1:
                recs += again       # it may have been an accident of the machine, once
            else:
                recs.append({'fatal': how})
            if deaths >= 2 and any('fatal' in r for r in recs):
                recs += [{'fatal': 'not run: the driver died %d times before' % deaths}] * (len(scenarios) - len(recs))
        return recs

    def _drive_once(self, exe, scenarios, timeout, args, env, tag):
        inp = os.path.join(self.work, 'drive_%s.in' % tag)
        with open(inp, 'w') as f:
            for s in scenarios:
                f.write(json.dumps(s, separators=(',', ':')) + '\n')
        outp = os.path.join(self.work, 'drive_%s.out' % tag)
        how = ''
        with open(inp) as fi, open(outp, 'wb') as fo, open(os.path.join(self.work, 'drive_%s.err' % tag), 'w+b') as fe:
            try:
                p = subprocess.run([exe, *args], stdin=fi, stdout=fo, stderr=fe, timeout=timeout, cwd=self.work, env=env or goenv(), preexec_fn=bounded)
                fe.seek(0)
                err = fe.read().decode('utf8', 'replace')
                how = 'exit %d: %s' % (p.returncode, err[:600])
                if p.returncode == 9:
                    raise Infra('driver could not do its work: ' + how)
            except subprocess.TimeoutExpired:
                raise Infra('driver timed out')
        recs = []
        for l in open(outp, encoding='utf8'):
            if l.endswith('\n'):
                recs.append(json.loads(l))
        return recs, how

    # ------------------------------------------------------------------ TLC
    def tlc(self, module, cfg, env=None, workers=None, timeout=800, heap='6g', extra=(), simulate=None):
        """Runs TLC; returns (stdout lines, generated, distinct)."""
        cfgp = os.path.join(self.work, '%s_%d.cfg' % (module, len(self.models)))
        with open(cfgp, 'w') as f:
            f.write(cfg)
        meta = tempfile.mkdtemp(prefix='tlc-', dir=self.work)
        cmd = ['java', '-XX:+UseParallelGC', '-Xmx' + heap, '-Xss256m', '-cp', JARS, 'tlc2.TLC',
               '-config', cfgp, '-workers', str(workers or 8), '-metadir', meta, '-noGenerateSpecTE', '-deadlock']
        if simulate:
            cmd += ['-simulate', simulate]
        cmd += list(extra) + [os.path.join(SPEC, module + '.tla')]
        e = dict(os.environ)
        e.update(env or {})
        try:
            p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise Infra('TLC timed out on ' + module)
        finally:
            shutil.rmtree(meta, ignore_errors=True)
        out = p.stdout.decode('utf8', 'replace')
        brief = '\n'.join(l for l in out.splitlines() if len(l) < 300)     # what TLC itself says
        m = re.findall(r'([\d,]+) states generated, ([\d,]+) distinct states found', brief)
        gen, dis = (int(x.replace(',', '')) for x in m[-1]) if m else (0, 0)
        if simulate:
            m = re.findall(r'(\d+) states checked', brief)
            gen = dis = int(m[-1]) if m else 0
        if p.returncode:
            raise Infra('TLC %s exited %d:\n%s' % (module, p.returncode, out[-4000:]))
        if not simulate and 'No error has been found' not in out:
            raise Infra('TLC %s did not complete:\n%s' % (module, out[-4000:]))
        self.states += dis
        self.transitions += max(gen - 1, 0)
        return out.splitlines(), gen, dis

    def model(self, module, cfg, label=None, **kw):
        """Exhaustive design-level check; returns the JSON values the module emitted."""
        lines, gen, dis = self.tlc(module, cfg, **kw)
        self.models.append({'module': module, 'what': label or module, 'generated': gen, 'distinct': dis})
        return emitted(lines)

    def refuted(self, module, cfg, label, **kw):
        """Negative control: TLC must find the invariant violated."""
        try:
            self.tlc(module, cfg, **kw)
        except Infra as e:
            if 'is violated' in str(e) or 'exited 12' in str(e):
                self.models.append({'module': module, 'what': label + ' (negative control: refuted as expected)'})
                return
            raise
        raise Infra('negative control %s was not refuted' % label)

    def judge(self, module, records, constants='', timeout=800, chunk=None, heap='8g', confirm=None, describe=None):
        """TLC decides each recorded execution.  Returns list of (index, detail) that do not conform."""
        if not records:
            raise Infra('nothing to judge')
        bad = []
        chunk = chunk or 60000
        text = [json.dumps(r, separators=(',', ':')) + '\n' for r in records]
        cuts, n, size, flood = [0], 0, 0, False
        for i, t in enumerate(text):
            if n == chunk or size > MUCH:
                cuts.append(i)
                flood |= size > MUCH
                n = size = 0
            n += 1
            size += len(t)
        cuts.append(len(text))
        if os.environ.get('VERIF_SIZES'): print('SIZE', module, len(text), sum(map(len, text)), max(map(len, text)))
        for off, to in zip(cuts, cuts[1:]):
            part = text[off:to]
            path = os.path.join(self.work, 'recs_%s_%d.ndjson' % (module, off))
            with open(path, 'w') as f:
                f.writelines(part)
            cfg = 'INIT JInit\nNEXT JNext\nINVARIANT Judged\n' + constants
            lines, gen, dis = self.tlc(module, cfg, env={'VERIF_RECS': path}, timeout=timeout, heap=heap)
            if dis < len(part):
                raise Infra('TLC %s judged only %d states for %d records' % (module, dis, len(part)))
            os.unlink(path)
            for l in lines:
                m = re.match(r'<<"BAD", (\d+)(?:, (.*))?>>$', l)
                if m:
                    bad.append((off + int(m.group(1)) - 1, m.group(2) or ''))
            for x in emitted(lines):
                if isinstance(x, dict) and 'bad' in x:
                    bad.append((off + x['bad'] - 1, x.get('d', '')))
            if any('"BAD"' in l for l in lines) and not bad:
                raise Infra('cannot read TLC verdicts: ' + [l for l in lines if '"BAD"' in l][0][:500])
            if bad and flood:
                break       # far more than any conforming run says, and enough seen of it
        self.traces += len(records)
        seen = set()
        out = []
        for i, d in bad:
            if i not in seen:
                seen.add(i)
                out.append((i, d))
        return out

    def free_memory(self):
        """In GB."""
        for l in open('/proc/meminfo'):
            if l.startswith('MemAvailable'):
                return int(l.split()[1]) >> 20
        return 0

    # -------------------------------------------------------------- verdict
    def violation(self, record, detail, key=None):
        """A recorded execution of the real code does not conform."""
        if key is not None:
            for k in self.known:
                if k['key'] == key:
                    k['hit'] = True
                    return
        self.violations.append((record, detail))

    def sample(self, *recs):
        for r in recs:
            if len(self.samples) < 6:
                s = json.dumps(r, separators=(',', ':'))
                self.samples.append(r if len(s) < 1500 else s[:1500] + '...')

    def finish(self):
        wall = round(time.time() - self.t0, 2)
        ev = {
            'property': self.pid, 'tier': self.tier, 'seed': self.seed, 'level': 'model_checking',
            'coverage': dict({'states': self.states, 'transitions': self.transitions,
                              'traces_validated_against_impl': self.traces,
                              'samples': self.samples, 'models': self.models}, **self.extra),
            'assumptions': self.assumptions, 'wall_s': wall, 'violations': len(self.violations)}
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', self.pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
            f.write('\n')
        for k in self.known:
            if k.get('hit'):
                print('KNOWN-FINDING: property=%s %s' % (self.pid, k['what']))
        if self.violations:
            d = os.path.join(VERIF, 'replays')
            os.makedirs(d, exist_ok=True)
            path = os.path.join(d, '%s-%s-%d.json' % (self.pid, self.tier, self.seed))
            with open(path, 'w') as f:
                json.dump([{'record': r, 'detail': x} for r, x in self.violations[:20]], f, indent=1)
                f.write('\n')
            r, x = self.violations[0]
            print('%d nonconforming execution(s); first: %s' % (len(self.violations), short(r)))
            print('  ' + str(x)[:1500])
            print('VIOLATION property=%s replay=%s' % (self.pid, path))
            return 1
        print('%s ok: %d states, %d executions of the code judged, %.1fs' % (self.pid, self.states, self.traces, wall))
        return 0

    def close(self):
        shutil.rmtree(self.work, ignore_errors=True)


def short(r):
    s = json.dumps(r, separators=(',', ':'))
    return s if len(s) < 1200 else s[:1200] + '...'


def emitted(lines):
    """Values printed by PrintT(ToJson(x)) in a model."""
    out = []
    for l in lines:
        if l.startswith('"{') or l.startswith('"['):
            out.append(json.loads(json.loads(l)))
    return out


def load_known(pid):
    path = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(path):
        return []
    return [dict(k) for k in json.load(open(path)).get('findings', []) if k['property'] == pid]


def b(s):
    """str/bytes -> list of byte values"""
    if isinstance(s, str):
        s = s.encode('utf8')
    return list(s)


def run_main(pid, fn):
    c = Check(pid)
    try:
        fn(c)
        rc = c.finish()
    except Infra as e:
        print('ERROR property=%s %s' % (pid, e))
        rc = 2
    except Exception:
        import traceback
        traceback.print_exc()
        print('ERROR property=%s internal' % pid)
        rc = 2
    finally:
        c.close()
    sys.exit(rc)
