import itertools

def random_regex(rng, alpha, depth, lit_only=False):
    """Returns the code points of an expression in the domain of the specification."""
    out = []
    if rng.random() < .3:
        out.append(94)
    # in a list, the characters that mean something elsewhere stand for themselves
    special = [42, 46, 36, 123, 125, 40, 41, 44, 91, 94, 92] if rng.random() < .4 else []
    for k in range(depth):
        x = rng.random()
        if x < .55 or lit_only:
            out.append(rng.choice(alpha))
        elif x < .75:
            out.append(46)
        elif x < .95:
            pool = alpha + special
            inner = rng.sample(pool, rng.randint(1, min(4, len(pool))))
            while len(inner) > 1 and (inner[0] == 94 or inner[-1] == 92): rng.shuffle(inner)     # \ before ] is outside of the domain
            if 45 in inner: inner = [45] + [x for x in inner if x != 45]                         # no ranges
            if inner[-1] == 92: inner += [alpha[0]]
            out += [91] + (inner if inner != [94] else [alpha[0]]) + [93]
        else:
            # an anchor character in the middle is an ordinary character
            out.append(rng.choice([94, 36]) if 0 < k < depth - 1 else rng.choice(alpha))
        y = rng.random()
        if y < .45:
            pass
        elif y < .65:
            out.append(42)
        else:
            m = rng.randint(0, 3)
            n = m + rng.randint(0, 3)
            if y < .75: t = '{%d}' % max(m, 1)
            elif y < .85: t = '{%d,}' % m
            elif y < .97: t = '{%d,%d}' % (m, max(n, 1))
            else: t = '{%d,%d}' % (10, 12)
            out += [ord(ch) for ch in t]
    if rng.random() < .3:
        out.append(36)
    return out


def check(c):
    elems = 3 if c.thorough else 2
    cfg = ('CONSTANTS MaxElems = %d MaxStr = 4 Alphabet = {97, 98} EmitAll = TRUE\n'
           'INIT Init\nNEXT Next\nINVARIANTS Agree Anchors Emit\n' % elems)
    gen = c.model('BreMC', cfg, 'all expressions of %d elements on all strings up to 4 characters' % elems)
    strs = [list(t) for n in range(5) for t in itertools.product([97, 98], repeat=n)] + [[99], [97, 99, 98]]
    scen = [dict(re=g['re'], strs=strs) for g in gen]
    c.extra['spec_behaviours_replayed'] = len(scen)
    rng = c.rng
    alphas = [[97, 98, 99], [97, 98], [97, 233, 26085, 128512], [48, 32, 45, 97, 33], [97, 65, 10, 9]]
    for k in range(4000 if c.thorough else 900):
        alpha = rng.choice(alphas)
        re = random_regex(rng, alpha, rng.choice([0, 1, 2, 3, 3, 4, 5, 6]))
        ss = [[]]
        for _ in range(14):
            n = rng.choice([1, 2, 3, 4, 5, 6, 8, 12, 20])
            w = rng.choice([alpha, alpha[:2], [alpha[0]], alpha + [94, 36, 120], alpha + [42, 46, 36, 123, 125, 40, 41, 44, 91, 94, 92], [42, 46, 36, 123, 125, 40, 41, 44, 91, 94, 92]])
            ss.append([rng.choice(w) for _ in range(n)])
        scen.append(dict(re=re, strs=ss))
    # long runs
    for m in (100, 1000):
        scen.append(dict(re=[94, 97, 42, 98, 36], strs=[[97] * m + [98], [97] * m, [97] * m + [98, 98], [98]]))
    T = lambda t: [ord(ch) for ch in t]
    for m, n in ((127, 128), (128, 200), (255, 256), (256, 300), (300, 300)):
        for t in ('^a{%d}$' % m, '^a{%d,}$' % m, '^a{%d,%d}$' % (m, n), 'a{%d,%d}b' % (m, n), '^[ab]{%d,%d}b$' % (m, n), '^.{%d}' % m, 'c.{%d,}$' % m):
            scen.append(dict(re=T(t), strs=[[97] * k + e for k in (m - 1, m, m + 1, n, n + 1) for e in ([], [98])] + [[99] + [97] * m, [99] + [97] * (m - 1)]))
    # where the first choice is wrong many times over
    for t in ('^a*a*a*ab$', 'a*a*a*b*c$', '^.*a.*b.*c$', '[ab]*[bc]*[ca]*d$', '^a{0,5}a{5}a{0,5}$', '.*b{2,3}a$'):
        scen.append(dict(re=T(t), strs=[[rng.choice([97, 98, 99][: rng.randint(1, 3)]) for _ in range(rng.randint(0, 40))] + rng.choice([[], [98], [99], [100]]) for _ in range(20)]))
    exe = c.build_driver('bre')
    recs = [dict(scen[i], **r) for i, r in enumerate(c.drive(exe, scen))]
    for i, d in c.judge('BreTrace', recs):
        c.violation(dict(recs[i], re_text=''.join(map(chr, recs[i]['re']))), d)
    c.sample(dict(re=''.join(map(chr, recs[-3]['re'])), n=len(recs[-3]['strs']), res=recs[-3].get('res')), recs[len(gen) + 1])
