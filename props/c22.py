import os, shutil, socket, subprocess
from concurrent.futures import ThreadPoolExecutor
from lib.harness import goenv, bounded, communicate, Endless

UNARY = 'bcdefghLnpSsuz'
INTS = ['0', '1', '-1', '007', '10', '9', '-0', '2147483648', '-2147483649', '99999999999', '123456789012345678', '-123456789012345678', '00', '100', '99']
BADINTS = ['', 'x', '1x', ' 1', '1 ', '1.0', '0x10', '--1', '-', '1e3', '=', '-n', '!']
WORDS = ['', 'a', 'b', 'aa', 'A', ' ', '!', '=', '!=', '-n', '-z', '-eq', '-e', '-f', '-d', 'reg', 'dir', '1', '01', '-1', '\u00e9', 'e\u0301', '-nn', '--', '-', '*', 'missing', '-q', '-lt', '==', '-EQ', 'a b']


def world(d):
    """Files of every type, and what they are."""
    p = lambda n: os.path.join(d, n)
    facts = {}

    def fact(n, type, link=False, size=False, setgid=False, setuid=False):
        facts[n] = dict(type=type, link=link, size=size, setgid=setgid, setuid=setuid)
    open(p('empty'), 'w').close(); fact('empty', 'regular')
    open(p('reg'), 'w').write('x'); fact('reg', 'regular', size=True)
    open(p('suid'), 'w').write('x'); os.chmod(p('suid'), 0o4755); fact('suid', 'regular', size=True, setuid=True)
    open(p('sgid'), 'w').close(); os.chmod(p('sgid'), 0o2755); fact('sgid', 'regular', setgid=True)
    open(p('both'), 'w').close(); os.chmod(p('both'), 0o6755); fact('both', 'regular', setgid=True, setuid=True)
    open(p('noperm'), 'w').write('y'); os.chmod(p('noperm'), 0); fact('noperm', 'regular', size=True)
    os.mkdir(p('dir')); fact('dir', 'directory')
    os.mkfifo(p('fifo')); fact('fifo', 'fifo')
    s = socket.socket(socket.AF_UNIX)
    cwd = os.getcwd()
    os.chdir(d)
    s.bind('sock')
    os.chdir(cwd)
    fact('sock', 'socket')
    for t in ('reg', 'empty', 'dir', 'fifo', 'suid'):
        os.symlink(t, p('to-' + t))
        fact('to-' + t, **dict(facts[t], link=True))
    os.symlink('nowhere', p('dangling')); fact('dangling', 'none', link=True)
    os.symlink('to-reg', p('to-to')); fact('to-to', 'regular', link=True, size=True)
    fact('/dev/null', 'char')
    for n in ('a', '1', '=', '-n', '!', 'a b'):
        open(p(n), 'w').close(); fact(n, 'regular')
    return facts, s


def check(c):
    rng = c.rng
    gen = c.model('TestMC', 'CONSTANTS MaxArgs = 4 File <- MCFile\nINIT Init\nNEXT Next\nINVARIANTS InRange OnlyKnown Involution Emit\n', 'all argument lists of up to 4 of 10 words')
    lists = [[bytes(w).decode() for w in g['a']] for g in gen]
    if not c.thorough:
        lists = [l for l in lists if len(l) <= 3] + rng.sample([l for l in lists if len(l) == 4], 500)
    c.extra['spec_behaviours_replayed'] = len(lists)
    d = os.path.join(c.work, 'world')
    os.mkdir(d)
    facts, sock = world(d)
    names = list(facts) + ['missing', 'dir/none', 'reg/x']
    for f in UNARY:
        for n in names:
            if f == 's' and facts.get(n, {}).get('type') in ('directory', 'fifo', 'socket', 'char'): continue      # the size of those is not specified
            lists.append(['-' + f, n])
            if rng.random() < .2: lists.append(['!', '-' + f, n])
    for op in ('-eq', '-ne', '-gt', '-ge', '-lt', '-le'):
        for k in range(120 if c.thorough else 40):
            x = rng.choice(INTS)
            y = rng.choice(INTS) if rng.random() < .7 else x
            lists.append([x, op, y])
        for x in BADINTS:
            lists += [['1', op, x], [x, op, '1']]
    for k in range(4000 if c.thorough else 400):
        lists.append([rng.choice(WORDS) for _ in range(rng.choice([1, 2, 2, 3, 3, 3, 4]))])
        a, b2 = rng.choice(WORDS), rng.choice(WORDS)
        lists.append([a, rng.choice(['=', '!=']), b2 if rng.random() < .6 else a])
        if rng.random() < .3: lists[-1].insert(0, '!')
    seen = set()
    lists = [l for l in lists if not (tuple(l) in seen or seen.add(tuple(l)))]
    # -r -w -x -t are documented as not implemented
    skip = lambda l: any(w in ('-r', '-w', '-x', '-t') for w in l)
    lists = [l for l in lists if not skip(l)]
    exe = c.build_cmd('test')

    hung = []

    def one(l):
        if len(hung) >= 12:
            return dict(fatal='not run: %d runs before did not end' % len(hung))
        p = subprocess.Popen([exe] + [os.fsencode(w) for w in l], cwd=d, env=goenv(), stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, preexec_fn=bounded)
        try:
            out, err = communicate(p)
        except Endless as e:
            hung.append(l)
            return dict(fatal=str(e))
        return dict(out=list(out), err=list(err), rc=p.returncode)
    with ThreadPoolExecutor(12) as ex:
        got = list(ex.map(one, lists))
    sock.close()
    en = lambda w: list(os.fsencode(w))
    recs = [dict(args=[en(w) for w in l], facts=[dict(n=en(n), f=facts[n]) for n in sorted(set(l)) if n in facts], **g) for l, g in zip(lists, got)]
    for i, dd in c.judge('TestTrace', recs, constants='CONSTANT File <- TraceFile\n'):
        g = got[i]
        rec = dict(args=lists[i], rc=g.get('rc'), out=bytes(g.get('out', [])).decode('latin1'), err=bytes(g.get('err', [])).decode('latin1'), **({'fatal': g['fatal']} if 'fatal' in g else {}))
        if dd['known'] and dd['why']:
            for w in dd['why']: c.violation(rec, dd, key=w)
        else:
            c.violation(rec, dd)
    c.sample(dict(args=lists[30], rc=got[30].get('rc')), dict(args=lists[-9], rc=got[-9].get('rc')))
