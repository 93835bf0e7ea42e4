from props import difflib


def check(c):
    ps = difflib.small(c)
    c.extra['spec_behaviours_replayed'] = len(ps)
    ps += difflib.pairs(c, c.thorough)
    recs = []
    got = c.drive(c.build_driver('diff'), [dict(old=[list(l) for l in x], new=[list(l) for l in y], nil=i % 2 == 0) for i, (x, y) in enumerate(ps)])
    for (x, y), g in zip(ps, got):
        g.pop('out', None)
        recs.append(difflib.rec('compare', x, y, g))
    big = difflib.huge(c.rng)
    got = c.drive(c.build_driver('diff'), [dict(oldruns=[list(r) for r in x], newruns=[list(r) for r in y]) for x, y in big])
    for (x, y), g in zip(big, got):
        g.pop('out', None)
        recs.append(dict(what='compareruns', oldruns=[list(r) for r in x], newruns=[list(r) for r in y], **g))
    for i, d in c.judge('DiffTrace', recs):
        c.violation(difflib.show(recs[i]), d)
    c.sample(difflib.show(recs[50]), difflib.show(recs[-40]))
