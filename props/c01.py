from lib.harness import b

def histories(c, tables=1, muts=False, conc=0):
    """Random edit histories; lengths are tracked so that every call is valid."""
    rng = c.rng
    out = []
    n = (250 if c.thorough else 60)
    for k in range(n):
        big = k % 10 == 0
        src = [rng.randrange(256) for _ in range(rng.choice([0, 1, 2, 3, 7, 40, 200, 4096 if big else 64]))]
        nt = tables if tables == 1 else rng.randint(2, tables)
        lens = []
        for _ in range(nt):
            x = rng.random()
            lens.append(-1 if x < .15 else len(src) if x < .7 else rng.randint(0, len(src)))
        cur = [max(l, 0) for l in lens]
        steps, ins = [], 0
        late = [t for t in range(nt) if nt > 1 and rng.random() < .3]     # tables that are made later
        ops = rng.choice([3, 8, 20, 60]) if not big else rng.choice([200, 400])
        every = 1 if not big else 25
        for i in range(ops):
            t = rng.randrange(nt)
            if t in late:
                late.remove(t)
                steps.append(dict(t=t, op='new', text=[], at=0, n=0, chk=1))
            x = rng.random()
            # positions: boundaries and places of earlier edits are likelier than the middle
            def pos():
                y = rng.random()
                if y < .25: return 0
                if y < .5: return cur[t]
                return rng.randint(0, cur[t])
            at = pos()
            st = dict(t=t, op='', text=[], at=0, n=0, chk=1 if i % every == every - 1 or i == ops - 1 else 0)
            if muts and x < .25 and ins and not conc:
                st.update(op='mut', n=rng.randrange(ins))
            elif x < .3 and muts:
                st.update(op='read')
            elif x < .65:
                m = rng.choice([0, 1, 1, 2, 3, 5, 17, 200 if rng.random() < .1 else 4])
                if k % 30 == 1 and rng.random() < .2: m = rng.choice([4096, 5000, 33000, 66000])
                st.update(op='ins', text=[rng.randrange(256) for _ in range(m)], at=at)
                cur[t] += m
                ins += 1
            else:
                y = rng.random()
                m = 0 if y < .1 else cur[t] - at + rng.randint(0, 3) if y < .25 else rng.randint(0, min(cur[t] - at + 1, 12))
                st.update(op='del', at=at, n=m)
                if rng.random() < .06:
                    m = 1 << 30       # stands for the largest of all numbers, and those just below
                    st.update(n=m, past=rng.randint(1, 4))
                cur[t] -= min(m, cur[t] - at)
            steps.append(st)
        if conc:
            for st in steps: st['chk'] = 0
            steps[-1]['chk'] = 1
        out.append(dict(src=src, lens=lens, reader=rng.choice(['plain', 'eof']), steps=steps, after=[], conc=conc))
    return out


def far(c):
    """Sources of many gigabytes: bytes, and blocks that are all deleted before the text is read."""
    rng = c.rng
    out = []
    for k in range(400 if c.thorough else 120):
        block = rng.choice([1 << 29, (1 << 30) + 7, (1 << 31) - 1, 1 << 31, (1 << 32) - 1, 1 << 32, (1 << 40) + 3, 1 << 59])
        items = []
        for i in range(rng.randint(1, 4)):
            items += [rng.randrange(256) for _ in range(rng.randint(0, 5))] + [1000 + i]
        items += [rng.randrange(256) for _ in range(rng.randint(0, 5))]
        text = list(items)
        size = lambda xs: sum(1 if x < 1000 else block for x in xs)
        steps = []
        def step(op, at, n=0, new=[]):
            st = dict(t=0, op=op, text=new, at=at, n=n, chk=0, real=[size(text[:at]), size(text[at:at + n])])
            text[at:at + n] = new
            st['chk'] = 0 if any(x >= 1000 for x in text) else 1
            steps.append(st)
        while len(steps) < 4 or any(x >= 1000 for x in text):
            at = rng.randint(0, len(text))
            if rng.random() < .6: step('ins', at, new=[rng.randrange(256) for _ in range(rng.randint(0, 3))])
            elif rng.random() < .3: step('del', at, rng.randint(0, min(2, len(text) - at)))
            else:
                big = [i for i, x in enumerate(text) if x >= 1000]
                if big:
                    i = rng.choice(big)
                    f = rng.randint(max(0, i - 2), i)
                    step('del', f, rng.randint(i + 1, min(len(text), i + 3)) - f)
        step('ins', rng.randint(0, len(text)), new=[7])
        out.append(dict(items=items, block=block, total=size(items), lens=[0], reader='plain', steps=steps, after=[]))
    return out


def check(c):
    bounds = dict(src=3, ops=3, text=2)
    cfg = ('CONSTANTS MaxSrc = %(src)d MaxOps = %(ops)d MaxText = %(text)d EmitAt = %(ops)d\n'
           'INIT Init\nNEXT Next\nINVARIANTS Refines WellFormed NoInvention Emit\n' % bounds)
    gen = c.model('PieceTableMC', cfg, 'all histories of %(ops)d edits on sources up to %(src)d bytes' % bounds)
    if c.thorough:
        cfg4 = ('CONSTANTS MaxSrc = 2 MaxOps = 4 MaxText = 1 EmitAt = 4\n'
                'INIT Init\nNEXT Next\nINVARIANTS Refines WellFormed NoInvention Emit\n')
        gen += c.model('PieceTableMC', cfg4, 'all histories of 4 edits on sources up to 2 bytes')
    scen = []
    for i, g in enumerate(gen):
        steps = [dict(t=0, chk=1, **h) for h in g['hist']]
        lens = [-1] if not g['src'] and i % 2 else [len(g['src'])]
        scen.append(dict(src=g['src'], lens=lens, reader=['plain', 'eof'][i % 2], steps=steps, after=[]))
    c.extra['spec_behaviours_replayed'] = len(scen)
    scen += histories(c) + far(c)
    exe = c.build_driver('txt')
    recs = c.drive(exe, scen)
    recs = [dict(scen[i], **r) for i, r in enumerate(recs)]
    for i, d in c.judge('PieceTableTrace', recs):
        c.violation(recs[i], 'after step %s' % d)
    c.sample(recs[0], recs[len(gen) // 2], min(recs[len(gen):], key=lambda r: len(r['steps'])))
