JUNK = [b' ', b'  ', b'\t', b'\r', b'\n', b'\0', b'"', b'\\', b'/', b';', b'\xc2\xa0', b'\xef\xbb\xbf', b"'", b'%']


def check(c):
    rng = c.rng
    gen = c.model('EraMC', 'CONSTANT MaxFields = %d\nINIT Init\nNEXT Next\nINVARIANTS Right Emit\n' % (7 if c.thorough else 6), 'all descriptions of up to %d fields' % (7 if c.thorough else 6))
    eras = [bytes(g['s']) for g in gen]
    if not c.thorough:
        eras = [e for e in eras if e.count(b':') < 5] + rng.sample([e for e in eras if e.count(b':') >= 5], 2500)
    elif len(eras) > 30000:
        eras = rng.sample(eras, 30000)
    c.extra['spec_behaviours_replayed'] = len(eras)
    OFF = [b'2', b'1', b'0', b'-1', b'+3', b'007', b'1234567890123', b'', b'x', b'1x', b' 1', b'1.5', b'0x10', b'--1', b'1_0', b'-', b'+', b'99999999999999999999', '\u0661'.encode()]
    for k in range(6000 if c.thorough else 1500):
        d = rng.choice([b'+', b'+', b'-', b'-', b'', b'++', b' +', b'+-', b'*', b'0'])
        dates = [rng.choice([b'1990/01/01', b'+*', b'-*', b'', b'-0001/12/31', b'x', b'9999/12/31']) for _ in range(2)]
        name = rng.choice(['\u5e73\u6210'.encode(), b'AD', b'', b'\xff', b'n' * 3000, b'a b', b'\n'])
        fmt = rng.choice(['%EC%Ey\u5e74'.encode(), b'%EC', b'', b'%H:%M:%S', b':', b'::', b'a:b:', b':x', b'%Ey'])
        parts = [d, rng.choice(OFF), dates[0], dates[1], name, fmt]
        # blanks and other characters a parser might drop or fold belong to the field they are in
        for j in (2, 3, 4, 5):
            if rng.random() < .15:
                x = rng.choice(JUNK)
                parts[j] = rng.choice([x + parts[j], parts[j] + x, x + parts[j] + x, x, parts[j].upper(), parts[j] * 2])
        if rng.random() < .2: parts = parts[:rng.randint(0, 5)]
        s = b':'.join(parts)
        # an offset that does not fit is neither asked for nor forbidden
        if b'99999999999999999999' in s: continue
        eras.append(s)
    for x in JUNK:
        for j in range(6):
            parts = [rng.choice([b'+', b'-']), rng.choice([b'2', b'-1', b'0']), b'1990/01/01', b'+*', b'AD', b'%EC%Ey']
            for y in (x + parts[j], parts[j] + x, x + parts[j] + x, x): eras.append(b':'.join(parts[:j] + [y] + parts[j + 1:]))
    got = c.drive(c.build_driver('era'), [dict(s=list(e)) for e in eras])
    recs = [dict(s=list(e), **g) for e, g in zip(eras, got)]
    show = lambda r: {k: bytes(v).decode('latin1')[:200] if isinstance(v, list) else v for k, v in r.items()}
    for i, d in c.judge('EraTrace', recs):
        c.violation(show(recs[i]), d)
    c.sample(show(recs[-1]), show(recs[-50]))
