"""Shared by the ed properties: scenarios, the driver and the judge."""
import re
from lib import cli
from lib.harness import b, Infra


def scenario(lines, files=(), dirs=(), chunk=0, slow=0, via=0, seed=0, last_nl=True):
    """lines: list of bytes, the script"""
    last_nl = last_nl or not lines or lines[-1] == b''
    return dict(lines=[list(l) for l in lines], files=[dict(n=b(n), d=b(d), m=m) for n, d, m in files],
                dirs=[b(d) for d in dirs], last_nl=last_nl,
                eds=[dict(script=[x for i, l in enumerate(lines)
                                  for x in (list(l) + ([10] if last_nl or i < len(lines) - 1 else []))],
                          chunk=chunk, slow=slow, via=via, seed=seed)])


def run(c, scen, module='EdTrace', timeout=800, stray=False):
    """Runs every scenario in the library and has the specification judge it.
    stray: text on standard output, where the editor was given another writer, counts."""
    exe = c.build_driver('ed')
    got = c.drive(exe, [dict(files=s['files'], dirs=s['dirs'], eds=s['eds']) for s in scen])
    recs = []
    for s, g in zip(scen, got):
        if 'fatal' in g:
            recs.append(dict(g, script=s['lines'], files0=s['files']))
        else:
            recs.append(dict(script=s['lines'], files0=s['files'],
                             out=g['outs'][0], final=g['finals'][0], files=g['files'], bad=s['dirs'] + s.get('bad', [])))
            if s.get('loose'): recs[-1]['loose'] = True
            if stray and 'stray' in g: recs[-1]['stray'] = True
    judge(c, recs, module, timeout)
    return recs, got


def huge(c, batch, module='EdTrace'):
    """Scripts and files with very long lines, given in symbols (lib/cli.py): to the editor a block of bytes
    in a line is text like any other.  batch: (lines, [(name, content)]) of lists of symbols."""
    scen = [scenario([cli.Symbols(l).data() for l in lines], [(n, cli.Symbols(d).data(), 0o644) for n, d in files]) for lines, files in batch]
    got = c.drive(c.build_driver('ed'), [dict(files=s['files'], dirs=[], eds=s['eds']) for s in scen])
    recs = []
    sy = lambda x: cli.symbols(bytes(x))
    for (lines, files), g in zip(batch, got):
        r = dict(script=[list(l) for l in lines], files0=[dict(n=b(n), d=list(d), m=0o644) for n, d in files])
        recs.append(dict(r, **g) if 'fatal' in g else
                    dict(r, out=sy(g['outs'][0]), final=sy(g['finals'][0]), files=[dict(f, d=sy(f['d'])) for f in g['files']], bad=[]))
    judge(c, recs, module)
    return recs


def judge(c, recs, module='EdTrace', timeout=800):
    for i, d in c.judge(module, recs, timeout=timeout):
        c.violation(show(recs[i]), d)
    return recs


def t(x):
    return bytes(y if y < 256 else 126 for y in x).decode('latin1')


def show(r):
    o = dict(script=[t(l) for l in r['script']], files0={t(f['n']): t(f['d']) for f in r['files0']})
    if 'stray' in r: o['stray'] = 'text on standard output'
    if 'fatal' in r:
        o['fatal'] = r['fatal']
    else:
        o['out'] = t(r['out'])
        if 'final' in r: o['final'] = t(r['final'])
        if 'files' in r: o['files'] = {t(f['n']): t(f['d']) for f in r['files']}
    return {k: (v if not isinstance(v, str) or len(v) < 2000 else v[:2000] + '...') for k, v in o.items()}


INV = 'INVARIANTS Refines CurrentLine FailedChangesNothing NoNewlineInLine OneSplice Emit\n'


def explore(c, cmds, files, ops, label, tail=(b'.=', b',n'), name='f'):
    """TLC explores all scripts of ops commands; they come back as scenarios that
    end with commands that show the current line and the buffer."""
    import json, os
    cp, fp = os.path.join(c.work, 'cmds.ndjson'), os.path.join(c.work, 'files.ndjson')
    with open(cp, 'w') as f:
        for x in cmds:
            f.write(json.dumps([list(l) for l in x]) + '\n')
    with open(fp, 'w') as f:
        for x in files:
            f.write(json.dumps(list(x)) + '\n')
    got = c.model('EdMC', 'CONSTANT MaxOps = %d\nINIT Init\nNEXT Next\n' % ops + INV, label,
                  env={'VERIF_CMDS': cp, 'VERIF_FILES': fp})
    out = []
    for g in got:
        lines = [b'e ' + name.encode()]
        for i in g['h']:
            lines += cmds[i - 1]
        out.append(scenario(lines + list(tail), [(name, files[g['f'] - 1], 0o644)]))
    c.extra['spec_behaviours_replayed'] = c.extra.get('spec_behaviours_replayed', 0) + len(out)
    return out
