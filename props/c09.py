from lib import cli
from props import difflib


def data(rng, xs):
    """A file with those lines; the last one may lack its newline."""
    s = b'\n'.join(xs)
    return s + b'\n' if xs and (rng.random() < .7 or not xs[-1]) else s


def check(c):
    ps = difflib.small(c)
    c.extra['spec_behaviours_replayed'] = len(ps)
    ps += difflib.pairs(c, c.thorough)
    recs = []
    got = c.drive(c.build_driver('diff'), [dict(old=[list(l) for l in x], new=[list(l) for l in y], nil=i % 2 == 0) for i, (x, y) in enumerate(ps)])
    for (x, y), g in zip(ps, got):
        for k in ('parts', 'oldafter', 'newafter'): g.pop(k, None)
        recs.append(difflib.rec('format', x, y, g))
    big = difflib.huge(c.rng)
    got = c.drive(c.build_driver('diff'), [dict(oldruns=[list(r) for r in x], newruns=[list(r) for r in y]) for x, y in big])
    for (x, y), g in zip(big, got):
        for k in ('parts', 'oldafter', 'newafter'): g.pop(k, None)
        recs.append(dict(what='runs', oldruns=[list(r) for r in x], newruns=[list(r) for r in y], **g))
    some = ps if c.thorough else c.rng.sample(ps, 250) + ps[-60:]
    cases = [dict(args=['old', 'new'], files=dict(old=data(c.rng, x), new=data(c.rng, y))) for x, y in some]
    for k, g in zip(cases, cli.run(c, c.build_cmd('diff'), cases)):
        r = dict(what='file', olddata=list(k['files']['old']), newdata=list(k['files']['new']))
        r.update({'fatal': g['fatal']} if 'fatal' in g else {'out': list(g['out'])})
        recs.append(r)
    for i, d in c.judge('DiffTrace', recs):
        c.violation(difflib.show(recs[i]), d)
    c.sample(difflib.show(recs[50]), difflib.show(recs[-70]))
