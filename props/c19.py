from lib import cli
from props.c18 import data


def check(c):
    rng = c.rng
    gen = c.model('CksumMC', 'CONSTANTS MaxLen = %d Alphabet = {0, 1, 10, 97, 128, 255}\nINIT Init\nNEXT Next\nINVARIANTS Agree OneByte Zeros Segments Emit\n' % (5 if c.thorough else 4),
                  'all single bytes and all short strings over six bytes')
    datas = [bytes(g['data']) for g in gen]
    if not c.thorough:
        short = [d for d in datas if len(d) <= 2]
        datas = short + rng.sample([d for d in datas if len(d) > 2], 400)
    c.extra['spec_behaviours_replayed'] = len(datas)
    cases = []
    for i in range(0, len(datas), 40):      # many operands in one run
        fs = {'n%d' % j: d for j, d in enumerate(datas[i:i + 40])}
        cases.append(dict(args=list(fs), files=fs))
    for d in rng.sample(datas, 20):
        cases.append(dict(args=rng.choice([[], ['-']]), stdin=d))
    for k in range(200 if c.thorough else 50):
        fs = {'f%d' % i: data(rng, rng.choice([0, 1, 3, 50, 255, 256, 257, 1000])) for i in range(rng.randint(1, 5))}
        fs['dir'] = None
        fs['with space'] = b'x'
        fs['\u00e9%d'] = b'y'
        args = [rng.choice(list(fs) + ['-', 'missing', '']) for _ in range(rng.choice([0, 1, 2, 3, 5]))]
        cases.append(dict(args=args, files=fs, stdin=data(rng, rng.choice([0, 1, 200]))))
    big = [4095, 4096, 65535, 65536, 65537] + ([131072, 300000] if c.thorough else [])
    for size in big:
        cases.append(dict(args=['x'], files={'x': data(rng, size)}))
        cases.append(dict(args=[], stdin=data(rng, size)))
    for k in range(10):
        x = data(rng, rng.choice([2, 30, 700, 5000]))
        cases.append(dict(args=rng.choice([[], ['-'], ['y', '-', 'y']]), files={'y': b'Y\n'}, stdin=x, slow=max(len(x) // rng.randint(2, 9), 1)))
        cases.append(dict(args=rng.choice([['p'], ['y', 'p', 'y'], ['p', 'missing', 'y']]), files={'y': b'Y\n', 'p': cli.Fifo(x)}, stdin=b''))
    for k in range(8):
        x = data(rng, rng.choice([0, 30, 700, 5000]))
        cases.append(dict(args=rng.choice([[], ['-'], ['y', '-', 'y']]), files={'y': b'Y\n'}, stdin=x, seek=rng.choice([0, 1, 5000])))
    for x in cli.kernels():
        cases.append(dict(args=rng.choice([['k'], ['y', 'k', 'k'], ['k', 'y']]), files={'y': b'Y\n', 'k': x}))
    for fill in (0, 255):
        cases.append(dict(args=['x'], files={'x': bytes([fill]) * 70000}))
    exe = c.build_cmd('cksum')
    recs = [cli.rec(k, g) for k, g in zip(cases, cli.run(c, exe, cases))]
    for n in [65536 * 5, 16777215, 16777216 + 70000] + ([16777216 * 9 + 3] if c.thorough else []):
        k = dict(args=['x'], files={'x': bytes(n)})
        r = cli.rec(dict(args=['x']), cli.run(c, exe, [k])[0])
        recs.append(dict(r, zeros=n))
    # long inputs: blocks that are repeated
    long = [[(rng.randbytes(rng.choice([1, 7, 999, 1000])), rng.randrange(1, 400)), (b'\0', rng.randrange(1, 10 ** 6)), (rng.randbytes(3), rng.randrange(1, 10 ** 6)), (rng.randbytes(50), 1)] for _ in range(6)]
    long.append([(rng.randbytes(64), 1), (rng.randbytes(1000), 17000), (b'end', 1)])             # more than 2^24
    long.append([(rng.randbytes(65536), 1), (rng.randbytes(65536), 2), (rng.randbytes(1), 1)])
    if c.thorough: long.append([(rng.randbytes(3), 5), (rng.randbytes(1001), 150000), (b'end', 1)])
    for segs in long:
        k = dict(args=['x'], files={'x': b''.join(b * n for b, n in segs)})
        r = cli.rec(dict(args=['x']), cli.run(c, exe, [k])[0])
        recs.append(dict(r, segs=[dict(b=list(b), k=n) for b, n in segs]))
    # more bytes than 32 bits count: nearly all of them in a hole
    for size in [2 ** 31, 2 ** 32] if c.free_memory() > 20 else []:
        n = size + rng.randrange(1, 3000)
        head, tail = rng.randbytes(rng.randint(0, 40)), rng.randbytes(rng.randint(1, 40))
        k = dict(args=['x'], files={'x': cli.Sparse([head, n, tail])}, memory=20, timeout=300)
        r = cli.rec(dict(args=['x']), cli.run(c, exe, [k])[0])
        zeros = [dict(b=[0], k=k) for k in [10 ** 9] * (n // 10 ** 9) + [n % 10 ** 9]]
        recs.append(dict(r, segs=[dict(b=list(head), k=1)] + zeros + [dict(b=list(tail), k=1)]))
        c.extra['largest_input'] = n
    for i, d in c.judge('CksumTrace', recs):
        c.violation(cli.show(recs[i]), d)
    c.sample(cli.show(recs[-15]), cli.show(recs[2]))
