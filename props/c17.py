import json, os
from lib import cli
from lib.harness import REPO

KEYS = {
    'LC_CTYPE': dict(symbols='upper lower alpha digit alnum space cntrl punct graph print xdigit blank', pairs='toupper tolower'),
    'LC_TIME': dict(texts='abday day abmon mon am_pm era alt_digits', text='d_t_fmt d_fmt t_fmt t_fmt_ampm era_d_fmt era_t_fmt era_d_t_fmt'),
    'LC_NUMERIC': dict(string='decimal_point thousands_sep', ints='grouping'),
    'LC_MONETARY': dict(string='int_curr_symbol currency_symbol mon_decimal_point mon_thousands_sep positive_sign negative_sign', ints='mon_grouping',
                        int='int_frac_digits frac_digits p_cs_precedes p_sep_by_space n_cs_precedes n_sep_by_space p_sign_posn n_sign_posn int_p_cs_precedes int_p_sep_by_space '
                            'int_n_cs_precedes int_n_sep_by_space int_p_sign_posn int_n_sign_posn'),
    'LC_MESSAGES': dict(expr='yesexpr noexpr'),
}
TABLE = [(cat, w, kind) for cat, ks in KEYS.items() for kind, ws in ks.items() for w in ws.split()]
cp = lambda s: [ord(x) for x in s]


class Gen:
    def __init__(self, rng):
        self.rng = rng
        self.esc, self.com = '\\', '#'

    def chars(self, n, esc_ok=True):
        r, out = self.rng, ''
        for _ in range(n):
            k = r.random()
            if k < .1 and esc_ok:
                out += self.esc + r.choice([',', ';', '<', '>', self.esc, '101', 'd65', 'd065', 'x41', 'x7e'])
            else:
                ch = r.choice('abcXYZ 0159.,-+:*()[]\'=_$\u00e9\u5e74\u20ac%|!/\\#&')
                out += ch if ch != self.esc else 'q'
        return out

    def symbol(self): return '<' + self.rng.choice(['A', 'z', 'zero', 'vertical-tab', 'U_0041', 'left-curly-bracket', 'IS4', '7']) + '>'

    def value(self, kind):
        r = self.rng
        n = r.choice([1, 1, 2, 3, 7])
        if kind == 'symbols': return ';'.join(self.symbol() for _ in range(n))
        if kind == 'pairs': return ';'.join('(%s,%s)' % (self.symbol(), self.symbol()) for _ in range(n))
        if kind == 'string': return '"%s"' % self.chars(r.choice([0, 0, 1, 1, 4]), r.random() < .3)
        if kind == 'text': return '"%s"' % self.chars(r.choice([1, 2, 10]))
        if kind == 'texts': return ';'.join('"%s"' % self.chars(r.choice([1, 3])) for _ in range(n))
        num = lambda: r.choice(['0', '1', '2', '3', '-1', '127', '10', '007', '12345', '-20'])
        if kind == 'int': return num()
        if kind == 'ints': return ';'.join(num() for _ in range(n))
        return '"%s"' % ''.join(r.choice('^[yYnN]*.+$()|') for _ in range(r.choice([1, 5])))

    def spoil(self, kind, v):
        """A value of the wrong kind."""
        r = self.rng
        k = r.random()
        if k < .15: return ''
        if k < .3: return v + ';'
        if k < .4: return ';' + v
        if k < .5: return v[:-1]
        if k < .6: return v[1:]
        if k < .68 and v and self.esc not in v:
            i = r.randrange(len(v))
            return v[:i] + r.choice('()<>,;"x-7[]') + v[i + r.randrange(2):]
        if k < .75:
            other = r.choice([x for x in ('symbols', 'pairs', 'text', 'int', 'expr') if x != kind])
            return self.value(other)
        return r.choice(self.wrong(kind))

    def wrong(self, kind):
        return {'symbols': ['<A>,<B>', '<A', 'A>', '<A>;B', '<A><B>', '<>A', '<A>;;<B>', '<A>(', '<A>;<B', '<A!>', '(<A>)', '<A>;(<B>,<C>)'],
                'pairs': ['(<a>;<A>)', '(<a>,<A>', '<a>,<A>', '(<a>)', '(<a>,<A>]', '(<a>,<A>;(<b>,<B>)', '<<a>,<A>)', '(<a>,<A>))', '(<a><A>)', '(<a>,<A>);', '(<a>,<A>)(<b>,<B>)', '(<a>,<A>x', '(,<A>)', '(<a>,)', '()', '(<a>,<A>),(<b>,<B>)', '(a,A)', '<a>'],
                'string': ['"a', 'a"', 'abc', '"a"b', '"a";"b"', '"' + self.esc + 'q"', '1', '<A>', '"a""b"', "'a'"],
                'text': ['""', '"a', '"a";', '"a"x', '"' + self.esc + 'z"', 'a', '1', '"a";"b"'],
                'texts': ['"a";;"b"', '"a","b"', '"a";"b', '"a" "b"', '"a";""', '"a"b', 'a;b', '"a";b', '"a""b"'],
                'int': ['1;2', '"1"', '--1', '1-', '-', '1.5', 'x', '1-2', '+1', '1x', '0x1', '<1>', '1,2'],
                'ints': ['3;;3', '3,3', '3;-', '3-', '--3', '"3"', '3;x', '3 3', ';3', '3;"3"', '+3'],
                'expr': ['"y', 'y"', 'yes', '"a"b"', '"a";"b"', '^y', '""x']}[kind]

    def category(self, cat=None):
        """Logical lines of a well formed category."""
        r = self.rng
        cat = cat or r.choice(list(KEYS) + ['LC_MONETARY', 'LC_COLLATE'])
        body = []
        if cat == 'LC_COLLATE':
            body = ['order_start' + r.choice(['', ' forward', '\tbackward', ' position'])] + [self.symbol() for _ in range(r.choice([1, 2, 6]))] + ['order_end']
        else:
            mine = [t for t in TABLE if t[0] == cat]
            for _, w, kind in r.sample(mine, min(len(mine), r.choice([1, 1, 2, 4, 12]))):
                body.append(r.choice(['', '', '', ' ', '\t']) + w + r.choice([' ', '\t', '   ', ' \t']) + self.value(kind))
        return [cat + r.choice(['', '', ' ', '\t '])] + body + [r.choice(['', '', '  ']) * (cat != 'LC_COLLATE') + 'END' + r.choice([' ', '  ', '\t']) + cat + ('' if cat == 'LC_COLLATE' else r.choice(['', '', ' ']))]

    def definition(self):
        out = []
        cats = list(KEYS) + ['LC_COLLATE']
        self.rng.shuffle(cats)
        for cat in cats[:self.rng.choice([1, 1, 2, 3])]: out += self.category(cat)
        return out

    def damage(self, ls):
        """One mistake."""
        r = self.rng
        ls = list(ls)
        at = r.randrange(len(ls))
        k = r.random()
        if k < .12: del ls[at]
        elif k < .2: ls.insert(at, r.choice(ls))
        elif k < .28: ls[at] = r.choice(['LC_BUTT', 'END', 'end LC_TIME', 'END LC_TIME', 'lc_time', 'LC_TIME x', 'frac_digits', 'nonsense', 'upper <A>', 'frac_digits 4', 'abday "x"', '"', 'LC_ALL', 'decimal_point'])
        elif k < .34: ls[at] = ls[at].strip().lower() if r.random() < .5 else ls[at].strip().upper()
        elif k < .4: ls[at] += r.choice(['x', ' x', '"', ';', ' "x"'])
        elif k < .45:
            b = r.randrange(len(ls))
            ls[at], ls[b] = ls[b], ls[at]
        else:
            kw = [i for i, l in enumerate(ls) if any(l.split()[:1] == [w] for _, w, _ in TABLE)]
            if kw:
                at = r.choice(kw)
                w = ls[at].split()[0]
                kind = next(k2 for _, x, k2 in TABLE if x == w)
                v = ls[at].strip()[len(w):].strip()
                if r.random() < .2:
                    w2 = r.choice(TABLE)[1]
                    ls[at] = w2 + ' ' + v
                else:
                    ls[at] = w + ' ' + self.spoil(kind, v)
                ls[at] = ls[at].strip()
            else:
                del ls[at]
        return ls

    def write(self, ls):
        """The lines as text, with comments, empty and continued lines."""
        r = self.rng
        out = ''
        if self.com != '#': out += 'comment_char ' + self.com + '\n'
        if self.esc != '\\': out += 'escape_char ' + self.esc + '\n'
        noisy = r.random() < .7
        for l in ls:
            while noisy and r.random() < .25:
                out += r.choice(['', '', self.com, self.com + ' remark', self.com + self.com + ' LC_TIME', self.com + ' ends with ' + self.esc, self.com + 'END LC_TIME', self.com + ' "']) + '\n'
            while noisy and len(l) > 2 and r.random() < .25:
                # a break: not inside of an escape sequence, and the next line does not begin with a blank of the content
                i = r.randrange(1, len(l))
                if l[i] in ' \t' or l[i - 1] in ' \t' or self.esc in l[max(0, i - 5):i + 1]: continue
                out += l[:i] + self.esc + '\n'
                l = r.choice(['', '  ', '\t']) + l[i:]
                break
            if noisy and l.count(';') and self.esc not in l and r.random() < .3:
                l = l.replace(';', ';' + self.esc + '\n   ') if '"' not in l else l
            out += l + '\n'
        if noisy and r.random() < .3: out += r.choice(['\n', self.com + ' end\n', '\n\n'])
        if r.random() < .3: out = out[:-1] if out.endswith('\n') else out
        return out


def keys_file(c):
    p = os.path.join(c.work, 'keys.ndjson')
    with open(p, 'w') as f:
        for cat, w, kind in TABLE: f.write(json.dumps(dict(cat=cp(cat), word=cp(w), kind=kind)) + '\n')
    os.environ['VERIF_KEYS'] = p


def check(c):
    rng = c.rng
    cfg = 'CONSTANTS Keys <- MCKeys Mode = "%s" MaxLines = %d\nINIT Init\nNEXT Next\nINVARIANTS Right Emit\n'
    texts = [''.join(map(chr, g['text'])) for g in c.model('LocaleDefMC', cfg % ('write', 3), 'every way to write one category down')]
    lines = [''.join(map(chr, g['text'])) for g in c.model('LocaleDefMC', cfg % ('lines', 6 if c.thorough else 4), 'acceptor against grammar, all sequences of lines')]
    lines = [l for l in lines if l.count('\n') <= 3] + (lambda m: rng.sample(m, min(len(m), 4000 if c.thorough else 300)))([l for l in lines if l.count('\n') > 3])
    texts = (texts if len(texts) < 3000 and c.thorough else rng.sample(texts, 2500 if c.thorough else 300)) + lines
    c.extra['spec_behaviours_replayed'] = len(texts)
    for k in range(6000 if c.thorough else 900):
        g = Gen(rng)
        if rng.random() < .3: g.com = rng.choice('%$*&\u00a7')
        if rng.random() < .3: g.esc = rng.choice('/|!@\u00bf\u2044')
        ls = g.definition()
        if rng.random() < .55: ls = g.damage(ls)
        texts.append(g.write(ls))
    g = Gen(rng)
    # every keyword by itself, in its own category and in every other one, with values of its kind and of others
    tried = set()
    for cat, w, kind in TABLE:
        for _ in range(2):
            texts.append('%s\n%s %s\nEND %s\n' % (cat, w, g.value(kind), cat))
            texts.append('%s\n%s %s\nEND %s\n' % (cat, w, g.spoil(kind, g.value(kind)).strip(), cat))
        if kind not in tried or rng.random() < .04 or c.thorough:
            tried.add(kind)
            texts += ['%s\n%s %s\nEND %s\n' % (cat, w, v, cat) for v in g.wrong(kind)]
        other = rng.choice([x for x in KEYS if x != cat])
        texts.append('%s\n%s %s\nEND %s\n' % (other, w, g.value(kind), other))
        texts.append('%s\n%s %s\nEND %s\n' % (cat, w, g.value(kind), other))
    # all monetary settings at once, with values of their own
    for k in range(6):
        ls = ['LC_MONETARY'] + ['%s %s' % (w, {'string': '"v%d%s"' % (i, 'x' * k), 'int': str(i + k), 'ints': '%d;%d' % (i, k)}[kind]) for i, (cat, w, kind) in enumerate(TABLE) if cat == 'LC_MONETARY'] + ['END LC_MONETARY']
        mid = ls[1:-1]
        rng.shuffle(mid)
        texts.append('\n'.join([ls[0]] + mid + [ls[-1]]) + '\n')
    # long ones
    for k in range(4):
        g.esc = rng.choice('\\/\u00bf')
        big = ['currency_symbol "%s"' % g.chars(1500, False), 'mon_decimal_point "%s"' % ('\u20ac' * 300), 'mon_grouping ' + ';'.join(str(rng.randrange(-1, 128)) for _ in range(rng.choice([40, 300]))),
               'frac_digits ' + rng.choice(['2147483647', '000000000012', '65536', '256', '-32769']), 'n_sign_posn ' + rng.choice(['128', '255', '99999']), 'negative_sign "%s"' % ('()' * 100),
               'int_curr_symbol "%s"' % rng.choice(['LC_MONETARY', 'END', 'a b  c ', ' x', '\t', g.com + 'x', "'"]), 'positive_sign "%s"' % rng.choice([' ', '  ', '\t', 'x\t', ' +', '+ '])]
        rng.shuffle(big)
        t = '\n'.join(['LC_MONETARY'] + big + ['END LC_MONETARY'])
        texts.append(t + '\n')
        texts.append(g.write(t.split('\n')))
        many = ['LC_TIME'] + ['%s %s' % (w, g.value(kind)) for _ in range(60) for cat, w, kind in rng.sample([x for x in TABLE if x[0] == 'LC_TIME'], 3)] + ['END LC_TIME']
        texts.append(g.write(many + g.category('LC_MONETARY')))
    g = Gen(rng)
    texts.append(open(os.path.join(REPO, 'pkg/locale/POSIX.locale'), encoding='utf8').read())
    texts += ['', '\n', '\n\n\n', '# only\n', 'LC_TIME', 'END LC_TIME\n', 'escape_char /\n', 'comment_char %\n% x\n', '\n\n# x\nLC_MESSAGES\nyesexpr "y"\nEND LC_MESSAGES\n\n\n',
              'LC_TIME\nd_fmt "x"\nEND LC_TIME\\', 'LC_TIME\nd_fmt "x"\nEND LC_TIME\\\n', 'LC_TIME\nd_fmt "' + 'x' * 5000 + '"\nEND LC_TIME\n', 'LC_CTYPE\nupper ' + ';'.join(['<A>'] * 800) + '\nEND LC_CTYPE\n',
              'LC_CTYPE\nupper ' + ';\\\n'.join(['<A>'] * 300) + '\nEND LC_CTYPE\n']
    seen = set()
    texts = [t for t in texts if not (t in seen or seen.add(t))]
    exe = c.build_driver('locale')
    cases = [dict(args=[], stdin=t.encode('utf8')) for t in texts]
    key = lambda w: w.replace('_', '')
    mon = {key(w): w for cat, w, _ in TABLE if cat == 'LC_MONETARY'}
    recs = []
    for t, g2 in zip(texts, cli.run(c, exe, cases, timeout=20)):
        r = dict(text=cp(t))
        if 'fatal' in g2: r['fatal'] = g2['fatal']
        elif g2['rc'] == 9: raise Exception('driver could not read its input')
        elif g2['rc'] == 0: r.update(accepted=True, settings=[dict(n=cp(mon[s['n']]), v=cp(s['v'])) for s in json.loads(g2['out']) if s['n'] in mon])
        else: r.update(accepted=False, settings=[])
        recs.append(r)
    # several definitions, one after the other: each gives what is in it
    good = [t for t, r in zip(texts, recs) if r.get('accepted') and len(t) < 400]
    seqs = []
    for k in range(1200 if c.thorough else 150):
        g = Gen(rng)
        if rng.random() < .5: g.com = rng.choice('%$*&')
        if rng.random() < .5: g.esc = rng.choice('/|!@')
        plain = Gen(rng)
        seqs.append([rng.choice([rng.choice(good), g.write(g.category('LC_MONETARY')), plain.write(plain.category('LC_MONETARY')), plain.write(plain.definition())]) for _ in range(rng.choice([2, 2, 3, 5]))])
        if rng.random() < .3: seqs[-1][-1] = plain.write(plain.damage(plain.definition()))
    mon = {key(w): w for cat, w, _ in TABLE if cat == 'LC_MONETARY'}
    for q, g2 in zip(seqs, cli.run(c, exe, [dict(args=['list'], stdin=json.dumps(q).encode()) for q in seqs], timeout=20)):
        if g2.get('rc') == 9: raise Exception('driver could not read its input')
        outs = g2['out'].splitlines() if 'fatal' not in g2 else []
        for j, t in enumerate(q[:len(outs) + 1]):
            r = dict(text=cp(t))
            if j < len(outs): r.update(accepted=True, settings=[dict(n=cp(mon[s['n']]), v=cp(s['v'])) for s in json.loads(outs[j]) if s['n'] in mon])
            elif 'fatal' in g2: r['fatal'] = g2['fatal']
            else: r.update(accepted=False, settings=[])
            texts.append(t)
            recs.append(r)
    c.extra['definitions_in_sequence'] = sum(map(len, seqs))
    keys_file(c)
    acc = sum(r.get('accepted', False) for r in recs)
    c.extra['accepted'] = acc
    for i, d in c.judge('LocaleDefTrace', recs, constants='CONSTANT Keys <- TraceKeys\n'):
        c.violation(dict(text=texts[i], **{k: v for k, v in recs[i].items() if k not in ('text', 'settings')}), d)
    c.sample(dict(text=texts[3], accepted=recs[3].get('accepted')), dict(text=texts[-120], accepted=recs[-120].get('accepted')))
