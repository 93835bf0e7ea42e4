from props.c01 import histories

def check(c):
    cfg = ('CONSTANTS MaxSrc = 2 MaxOps = 2 MaxText = 2 EmitAt = 2\n'
           'INIT Init\nNEXT Next\nINVARIANTS Refines WellFormed NoInvention Emit\n')
    gen = c.model('PieceTableMC', cfg, 'all histories of 2 edits on sources up to 2 bytes')
    # each behaviour of one table, with the caller's slices overwritten after every insert,
    # next to a second table on the same source that is edited in between
    scen = []
    for g in gen:
        n = len(g['src'])
        steps, ins = [], 0
        for k, h in enumerate(g['hist']):
            steps.append(dict(t=0, chk=1, **h))
            if h['op'] == 'ins':
                steps.append(dict(t=0, op='mut', text=[], at=0, n=ins, chk=1)); ins += 1
            steps.append(dict(t=1, op='ins', text=[200 + k], at=min(k, n), n=0, chk=1)); ins += 1
            steps.append(dict(t=1, op='read', text=[], at=0, n=0, chk=1))
        for k in range(ins):
            steps.append(dict(t=0, op='mut', text=[], at=0, n=k, chk=1))
        steps.append(dict(t=1, op='del', text=[], at=0, n=1, chk=1))
        # a third table, made when the others hold text already
        steps.insert(len(steps) // 2, dict(t=2, op='new', text=[], at=0, n=0, chk=1))
        steps.append(dict(t=2, op='ins', text=[100], at=0, n=0, chk=1))
        scen.append(dict(src=g['src'], lens=[n, n, n], reader='plain', steps=steps, after=[]))
    c.extra['spec_behaviours_replayed'] = len(scen)
    for _ in range(4 if c.thorough else 2):
        scen += histories(c, tables=3, muts=True)
    # tables edited at the same time
    for h in histories(c, tables=6, muts=True, conc=1): scen += [h] * 3
    exe = c.build_driver('txt')
    recs = c.drive(exe, scen)
    recs = [dict(scen[i], **r) for i, r in enumerate(recs)]
    for i, d in c.judge('PieceTableTrace', recs):
        c.violation(recs[i], 'after step %s' % d)
    c.sample(recs[0], recs[len(gen) // 2], min(recs[len(gen):], key=lambda r: len(r['steps'])))
