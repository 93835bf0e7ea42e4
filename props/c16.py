import os
from lib import cli

NAMES = ['LANG', 'LC_COLLATE', 'LC_CTYPE', 'LC_MESSAGES', 'LC_MONETARY', 'LC_NUMERIC', 'LC_TIME', 'LC_ALL']
VALUES = [b'C', b'POSIX', b'en_US.UTF-8', b'de_DE@euro', b'', b' ', b'"', b'"C"', b"it's", b'%s%d%%', b'a=b', b'a\nb', '\u00e9'.encode(), b'\xff\xfe', b'$LANG', b'\\', b'x' * 3000, b'LC_ALL=x', b'/a/b', b'\t']


def check(c):
    rng = c.rng
    gen = c.model('LocaleEnvMC', 'INIT Init\nNEXT Next\nINVARIANTS Hides Own EmptyIsUnset Emit\n', 'all environments: each variable unset, empty or set')
    envs = []
    for g in gen:
        envs.append([dict(n=n, v=[] if h == 1 else list(b'v%d.x' % i)) for i, (n, h) in enumerate(zip(NAMES, g['how'])) if h])
    c.extra['spec_behaviours_replayed'] = len(envs)
    ncli = 3000 if c.thorough else 250
    progs = rng.sample(envs, ncli)
    for k in range(3000 if c.thorough else 400):
        p = rng.random()
        e = [dict(n=n, v=list(rng.choice(VALUES))) for n in NAMES if rng.random() < (.35 if n == 'LC_ALL' else p)]
        envs.append(e)
        if k % 3 == 0: progs.append(e)
    # long values
    for n, names in ((4096, NAMES[:7]), (66001, NAMES[:7]), (120000, [rng.choice(NAMES[1:7])]), (120000, ['LANG']), (70000, ['LC_ALL']), (66000, ['LANG'])):
        e = [dict(n=x, v=list(bytes(rng.choice(b'abc_.@%') for _ in range(n)))) for x in names]
        envs.append(e)
        progs.append(e)
    got = c.drive(c.build_driver('localeenv'), [dict(env=e) for e in envs])
    recs = [dict(env=e, **g) for e, g in zip(envs, got)]
    cases = []
    for e in progs:
        env = {os.fsencode(v['n']): bytes(v['v']) for v in e}
        env.update({b'PATH': b'/usr/bin:/bin', b'HOME': b'/', b'LC_OTHER': b'zz', b'LANGUAGE': b'yy'})
        cases.append(dict(args=[], env=env))
    for e, g in zip(progs, cli.run(c, c.build_cmd('locale'), cases)):
        recs.append(dict(env=e, **({'fatal': g['fatal']} if 'fatal' in g else dict(out=list(g['out']), rc=g['rc']))))

    def show(r):
        t = lambda x: bytes(x).decode('latin1')[:200]
        return dict(r, env={v['n']: t(v['v']) for v in r['env']}, out=t(r.get('out', [])))
    for i, d in c.judge('LocaleEnvTrace', recs):
        c.violation(show(recs[i]), bytes(d).decode('latin1'))
    c.sample(show(recs[777]), show(recs[-5]))
