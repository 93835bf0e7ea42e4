LETTERS = [ord(x) for x in 'abcnsxyzABZ019:=?.@_+,/'] + [0xe9, 0x416, 0x4e2d, 0x1f600, 0x7f, 0x20, 0xff]


def chars(s):
    """The characters of a byte string; bytes that are none get numbers of their own."""
    return [ord(x) if not 0xdc80 <= ord(x) <= 0xdcff else 0x200000 + ord(x) - 0xdc00 for x in s.decode('utf8', 'surrogateescape')]


def enc(cs):
    return ''.join(map(chr, cs)).encode('utf8')


INTS = ['0', '7', '-7', '+7', '10', '010', '0x10', '0XfF', '-0x1', '0b101', '0o17', '1_000', '0x_1', '08', '1x', '', '-', '+', '0x', '1_', '_1', '1__0', '--1', '1.0', ' 1', '1 ', 'x', '99999999999999999999',
        '9223372036854775807', '9223372036854775808', '-9223372036854775808', '-9223372036854775809', '0x7fffffffffffffff', '0x8000000000000000', '0777777777777777777777', '01000000000000000000000',
        '1e3', '\u0661', '0_7', '-010', '00', '007', '+0x1F', '0b2', '0B1', '0O7', '2147483648', '4294967296', '-2147483649', '123456789012345678']
STRS = [b'', b'x', b'-', b'--', b'-a', b'value', b'-s', '\u00e9t\u00e9'.encode(), b'\xff\xfe', b'a b', b'=x', b'%d', b'\n', b'x' * 5000, b'\xc3', b'-1', b'0x']


def lines(c):
    rng = c.rng
    out = []
    for k in range(6000 if c.thorough else 1500):
        ls = rng.sample(LETTERS, rng.choice([0, 1, 2, 3, 4, 6]))
        opts = [dict(l=l, k=rng.choice(['bool', 'bool', 'string', 'int'])) for l in ls]
        args, cur = [], None
        clean = rng.random() < .55                 # no deliberate mistake
        for _ in range(rng.choice([0, 1, 2, 3, 4, 8])):
            if cur is None: cur = b'-'
            o = rng.choice(opts) if opts and (clean or rng.random() < .85) else dict(l=rng.choice(LETTERS + [45, 0xfffd]), k='bool')
            if not opts and clean: break
            cur += enc([o['l']])
            if o['k'] == 'bool':
                if rng.random() < .5:
                    args.append(cur)
                    cur = None
                continue
            if o['k'] == 'int':
                v = (rng.choice(INTS[:13] + INTS[28:30] + INTS[30:31] + INTS[32:33] + ['%d' % rng.randint(-10 ** rng.randint(1, 18), 10 ** rng.randint(1, 18)), hex(rng.randrange(2 ** rng.randint(1, 63)))]) if clean
                     else rng.choice(INTS)).encode()
                if clean and v == b'9223372036854775808': v = b'1'
            else:
                v = rng.choice(STRS)
            if v and rng.random() < .5: args.append(cur + v)
            else: args += [cur, v]
            cur = None
        if cur is not None and len(cur) > 1: args.append(cur)
        if not clean and args and rng.random() < .3: args[-1] = rng.choice([args[-1] + b'\xff', b'--long', b'-\xff', args[-1][:2], b'-' + args[-1]])
        if not clean and args and rng.random() < .2: args.pop()
        if rng.random() < .6:
            if rng.random() < .4: args.append(b'--')
            args += [rng.choice([b'-', b'f', b'file', b'', b'-a', b'--', b'x-', b'\xff']) for _ in range(rng.choice([1, 2, 3]))]
        out.append(dict(opts=opts, args=args))
    # very long ones
    opts = [dict(l=97, k='bool'), dict(l=115, k='string'), dict(l=110, k='int')]
    out.append(dict(opts=opts, args=[b'-' + b'a' * 3000 + b'n5', b'x' * 70000]))
    out.append(dict(opts=opts, args=[b'-a'] * 500 + [b'-s' + b'y' * 70000] + [b'-n', b'3'] * 100 + [b'--'] + [b'-q'] * 300))
    out.append(dict(opts=opts, args=[b'-s', b'1', b'-s2', b'-n1', b'-n', b'2', b'-s', b'3', b'op', b'-s4']))
    return out


def run(c, which):
    rng = c.rng
    gen = c.model('FlagMC', 'CONSTANTS MaxOpts = %d MaxOps = 1\nINIT Init\nNEXT Next\nINVARIANTS Understood Emit\n' % (3 if c.thorough else 2), 'every way to write command lines of %d options' % (3 if c.thorough else 2))
    kinds = [dict(l=97, k='bool'), dict(l=98, k='bool'), dict(l=115, k='string'), dict(l=110, k='int')]
    cmds = []
    seen = set()
    for g in gen:
        a = tuple(enc(x) for x in g['args'])
        if a not in seen:
            seen.add(a)
            cmds.append(dict(opts=kinds, args=list(a)))
    if not c.thorough and len(cmds) > 2500: cmds = rng.sample(cmds, 2500)
    c.extra['spec_behaviours_replayed'] = len(cmds)
    for v in INTS:
        for a in ([b'-n' + v.encode()], [b'-n', v.encode()], [b'-abn' + v.encode(), b'-sx']): cmds.append(dict(opts=kinds, args=a))
    cmds += lines(c)
    scen = [dict(opts=k['opts'], args=[list(a) for a in k['args']], osargs=i % 5 == 0) for i, k in enumerate(cmds)]
    got = c.drive(c.build_driver('flag'), scen)
    recs = []
    for k, g in zip(cmds, got):
        r = dict(opts=k['opts'], args=[chars(a) for a in k['args']])
        if 'fatal' in g: r['fatal'] = g['fatal']
        else: r.update(err=g['err'], ops=[chars(bytes(o)) for o in g['ops']], vals=[dict(set=v['set'], val=chars(bytes(v['val'])) if v['set'] else []) for v in g['vals']])
        recs.append(r)

    def show(i):
        g = dict(got[i])
        if 'ops' in g:
            g['ops'] = [bytes(o).decode('latin1')[:200] for o in g['ops']]
            g['vals'] = [dict(set=v['set'], val=bytes(v['val']).decode('latin1')[:200]) for v in g['vals']]
        return dict(options=[chr(o['l']) + ':' + o['k'] for o in cmds[i]['opts']], args=[a.decode('latin1')[:200] for a in cmds[i]['args'][:60]], **g)
    for i, d in c.judge('FlagTrace', recs, constants='CONSTANT Which = "%s"\n' % which):
        c.violation(show(i), d)
    c.sample(show(40), show(len(recs) - 30))
