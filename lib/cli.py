"""Runs a program of cmd/ in scratch directories and records what it did."""
import os, shutil, subprocess, threading, time
from concurrent.futures import ThreadPoolExecutor
from lib.harness import goenv, bounded, communicate, Endless


BLOCK = 1 << 16


class Symbols(list):
    """Content in symbols: a byte, or 1000+i for a block of BLOCK bytes without newline.  Long contents for
    programs that copy and do not look: for them a block is as good as a byte."""

    def data(self):
        return b''.join(block(s) if s >= 1000 else bytes([s]) for s in self)


_blocks = {}


def block(s):
    if s not in _blocks:
        import random
        _blocks[s] = random.Random(s).randbytes(BLOCK).replace(b'\n', b'\r')
    return _blocks[s]


def symbols(data):
    """The symbols of an output.  Blocks are random, so there is one way to read it."""
    heads = {b[:24]: b for b in _blocks.values()}
    name = {b: s for s, b in _blocks.items()}
    out, i = [], 0
    while i < len(data):
        b = heads.get(data[i:i + 24])
        if b is not None and data[i:i + BLOCK] == b:
            out.append(name[b])
            i += BLOCK
        else:
            out.append(data[i])
            i += 1
        if len(out) > 300000:       # nothing like what went in
            return out
    return out


class Sparse(list):
    """Content of an operand: bytes, and numbers of zero bytes (a hole)."""

    def write(self, path):
        with open(path, 'wb') as f:
            for x in self:
                if isinstance(x, int): f.seek(x, 1)
                else: f.write(x)
            f.truncate()


def past(nbytes, nlines):
    """A place in a file, in the numbers of the specification."""
    return dict(bytes=divmod(nbytes, 10 ** 9), lines=divmod(nlines, 10 ** 9))


class Fifo(bytes):
    """Content of an operand that is a named pipe."""


class Existing(bytes):
    """Content of an operand that is a link to a file that is there already."""
    path = None


def kernel(path):
    """A file the system makes up when it is read: nothing tells its size beforehand."""
    try:
        x = Existing(open(path, 'rb').read())
        x.path = path
        if len(x) < 20000 and os.stat(path).st_size == 0 and x == open(path, 'rb').read():
            return x
    except OSError:
        pass
    return None


def kernels():
    return [x for x in map(kernel, ('/proc/version', '/proc/filesystems', '/proc/devices')) if x]


def pour(path, data):
    """Writes data into a fifo once somebody opens it; returns what ends the waiting."""
    def go():
        try:
            with open(path, 'wb', buffering=0) as f:
                for i in range(0, len(data), max(len(data) // 3, 1)):
                    f.write(data[i:i + max(len(data) // 3, 1)])
                    time.sleep(.002)
        except OSError:
            pass
    t = threading.Thread(target=go, daemon=True)
    t.start()

    def end():
        while t.is_alive():
            fd = os.open(path, os.O_RDONLY | os.O_NONBLOCK)
            t.join(.05)
            os.close(fd)
            t.join(.05)
    return end


def run(c, exe, cases, timeout=60, where=''):
    """A case: args (list of bytes/str), files {name: bytes | None for a directory}, stdin (bytes | None: empty),
    env (optional), slow: standard input in pieces of so many bytes, seek: standard input is a file of
    which so much was read.  Returns dicts with out, err (bytes) and rc, or fatal."""
    root = os.path.join(c.work, 'cli_' + os.path.basename(exe) + where)
    os.makedirs(root, exist_ok=True)

    hung = []

    def one(ix):
        i, k = ix
        if len(hung) >= 12:
            return dict(fatal='not run: %d runs before did not end' % len(hung))
        d = os.path.join(root, '%d' % i)
        os.mkdir(d)
        ends = []
        try:
            for n, data in k.get('files', {}).items():
                p = os.path.join(os.fsencode(d), n if isinstance(n, bytes) else os.fsencode(n))
                if data is None:
                    os.mkdir(p)
                elif isinstance(data, Existing):
                    os.symlink(data.path, p)
                elif isinstance(data, Sparse):
                    data.write(p)
                elif isinstance(data, Fifo):
                    os.mkfifo(p)
                    ends.append(pour(p, data))
                else:
                    with open(p, 'wb') as f:
                        f.write(data.data() if isinstance(data, Symbols) else data)
            args = [exe] + [a if isinstance(a, bytes) else os.fsencode(a) for a in k['args']]
            env = k.get('env')
            if env is None:
                env = goenv()
            inp = subprocess.PIPE
            if 'seek' in k:         # standard input is a file that was read up to some place
                inp = open(d + '.in', 'w+b', buffering=0)
                ends.append(lambda: (inp.close(), os.unlink(d + '.in')))
                inp.write(b'#' * k['seek'] + k['stdin'])
                inp.seek(k['seek'])
            p = subprocess.Popen(args, cwd=d, stdin=inp, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, preexec_fn=lambda: bounded(k.get('memory', 6)))
            try:
                out, err = communicate(p, k['stdin'].data() if isinstance(k.get('stdin'), Symbols) else k.get('stdin') or b'', k.get('timeout', timeout), slow=k.get('slow', 0))
            except Endless as e:
                hung.append(i)
                return dict(fatal=str(e))
            after = {}
            if k.get('after'):
                for n in os.listdir(os.fsencode(d)):
                    q = os.path.join(os.fsencode(d), n)
                    after[n] = open(q, 'rb').read() if os.path.isfile(q) else None
            return dict(out=out, err=err, rc=p.returncode, after=after)
        finally:
            for e in ends: e()
            shutil.rmtree(d, ignore_errors=True)

    with ThreadPoolExecutor(12) as ex:
        got = list(ex.map(one, enumerate(cases)))
    shutil.rmtree(root, ignore_errors=True)
    return got


def rec(case, got, unreadable=()):
    """The record the specification judges: bytes as lists of numbers."""
    en = lambda x: list(x if isinstance(x, bytes) else os.fsencode(x))
    r = dict(args=[en(a) for a in case['args']], stdin=list(case.get('stdin') or b''),
             files=[dict(n=en(n), d=list(d)) for n, d in case.get('files', {}).items() if d is not None])
    if 'fatal' in got:
        r['fatal'] = got['fatal']
    else:
        sym = isinstance(case.get('stdin'), Symbols) or any(isinstance(x, Symbols) for x in case.get('files', {}).values())
        # no program says more than this of what it is given: the rest of it adds nothing
        cap = (1 << 19) + 30 * (len(r['stdin']) + sum(len(f['d']) for f in r['files']) + sum(map(len, r['args'])))
        r.update(out=symbols(got['out']) if sym else list(got['out'][:cap]), err=list(got['err'][:cap]), rc=got['rc'])
    return r


def show(r):
    t = lambda x: bytes(y if y < 256 else 126 for y in x[:600]).decode('latin1')
    o = dict(args=[t(a) for a in r['args']], files={t(f['n']): t(f['d']) for f in r['files']}, stdin=t(r['stdin']))
    if 'fatal' in r:
        o['fatal'] = r['fatal']
    else:
        o.update(out=t(r['out']), err=t(r['err']), rc=r['rc'])
    return o


def fits(cases):
    return [k for k in cases if all(b'\0' not in (a if isinstance(a, bytes) else a.encode()) for a in k['args'])]
