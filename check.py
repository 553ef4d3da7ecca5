#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]: see DESIGN.md. Exit 0: the property
held on everything explored, 1: it is violated, 2: the check itself failed."""
import base64, json, os, sys, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'lib'))
import build, decls, dom, handlers, isolate, lint, outputs, pipe, robust, stacks
from checks import Run

RULE = ('Documents come from the state space of the TLA+ machine (XmlGen: every sequence of fragments up to a bound, and random walks), from seeded '
        'generators and from mutations of them; each is parsed by the real code, and its recorded trace (events, tree, serialization, serialization read again) '
        'is a trace that TLC validates against the machine. A case is non-trivial if the machine read more than two tokens of it.')


def done(*bads):
    return lambda v, b: v == 'done'


def ev_only(v, b):
    return v == 'done' and not b.startswith(('tree', 'dump'))


def tree(v, b):
    return v == 'done' and not b.startswith('dump')


def dump(v, b):
    return v == 'done' and b not in ('pure',)


def err(v, b):
    return v == 'err'


def anything(v, b):
    return v in ('done', 'err')


# some of everything: a change shows where it shows
def wide(n, mut):
    return [('gen', p, k * n, mut) for p, k in (('all', 300), ('content', 150), ('dtd', 250), ('ns', 200), ('ent', 250), ('att', 250), ('decl', 150), ('deep', 60))] \
        + [('many', 260 * n, mut * .6)]


PLANS = {
    'C01': (ev_only, 'tdp',
            [*wide(1, 0.15), ('gen', 'all', 1000), ('gen', 'content', 600, .15), ('walk', 'content', 4, 9, 300), ('all', 'misc', 1, 2), ('all', 'blank', 1, 3), ('walk', 'blank', 3, 9, 15), ('chars', 900), ('big', 24), ('repo',), ('near', 1500), ('near', 200, 'mixed')],
            [*wide(6, 0.15), ('gen', 'all', 30000), ('gen', 'content', 12000, .15), ('walk', 'content', 4, 14, 8000), ('all', 'content', 1, 2), ('all', 'misc', 1, 3), ('all', 'blank', 1, 4), ('walk', 'blank', 4, 14, 800), ('chars', 99999), ('big', 400), ('repo',),
             ('walk', 'ns', 4, 12, 3000), ('walk', 'ent', 3, 9, 3000), ('near', 60000)]),
    'C02': (err, 'p',
            [*wide(1, 0.95), ('gen', 'all', 1200, .95), ('gen', 'content', 500, .95), ('all', 'content', 1, 2), ('all', 'tag', 1, 3), ('all', 'misc', 1, 2), ('all', 'dtd', 1, 1), ('all', 'ns', 1, 2), ('all', 'ent', 1, 1), ('all', 'att', 1, 2), ('all', 'decl', 1, 2),
             ('all', 'model', 1, 3), ('walk', 'dtd', 2, 5, 300), ('chars', 1500), ('near', 4000)],
            [*wide(6, 0.95), ('gen', 'all', 30000, .95), ('gen', 'content', 10000, .95), ('gen', 'dtd', 10000, .95), ('gen', 'ns', 8000, .95), ('gen', 'ent', 8000, .95), ('gen', 'att', 8000, .95),
             ('all', 'content', 1, 2), ('all', 'tag', 1, 4), ('all', 'misc', 1, 3), ('all', 'dtd', 1, 2), ('chars', 99999), ('near', 999999)]),
    'C04': (tree, 't',
            [*wide(1, 0.1), ('gen', 'all', 1400, .1), ('gen', 'content', 500, .1), ('gen', 'dtd', 500, .1), ('gen', 'ns', 300, .1), ('walk', 'content', 4, 9, 300), ('all', 'misc', 1, 2), ('big', 24), ('repo',), ('near', 800)],
            [*wide(6, 0.1), ('gen', 'all', 30000, .1), ('gen', 'content', 12000, .1), ('gen', 'dtd', 12000, .1), ('gen', 'ns', 8000, .1), ('gen', 'deep', 4000, .1), ('walk', 'content', 4, 14, 8000),
             ('all', 'misc', 1, 3), ('big', 400), ('repo',), ('near', 30000)]),
    'C06': (dump, 'td',
            [*wide(1, 0.05), ('gen', 'all', 1200, .05), ('gen', 'dtd', 700, .05), ('gen', 'att', 500, .05), ('gen', 'ent', 300, .05), ('walk', 'dtd', 3, 8, 300), ('chars', 700), ('big', 16), ('repo',), ('near', 800)],
            [*wide(6, 0.05), ('gen', 'all', 30000, .05), ('gen', 'dtd', 15000, .05), ('gen', 'att', 10000, .05), ('gen', 'ent', 10000, .05), ('gen', 'ns', 6000, .05), ('walk', 'dtd', 3, 12, 6000),
             ('all', 'model', 1, 4), ('chars', 99999), ('big', 300), ('repo',), ('near', 30000)]),
    'C08': (anything, 'tdp',
            [*wide(1, 0.2), ('gen', 'ns', 1500, .25), ('all', 'ns', 1, 2), ('walk', 'ns', 3, 10, 500), ('near', 1500, 'ns', 'res')],
            [*wide(6, 0.2), ('gen', 'ns', 40000, .25), ('all', 'ns', 1, 3), ('walk', 'ns', 4, 16, 10000), ('near', 99999, 'ns', 'res')]),
    'C09': (anything, 'tdp',
            [*wide(1, 0.2), ('gen', 'ent', 1600, .2), ('all', 'ent', 1, 2), ('walk', 'ent', 3, 7, 200), ('near', 1200, 'ent')],
            [*wide(6, 0.2), ('gen', 'ent', 40000, .2), ('all', 'ent', 1, 2), ('walk', 'ent', 3, 10, 8000), ('near', 99999, 'ent')]),
    'C10': (anything, 'tdp',
            [*wide(1, 0.2), ('gen', 'dtd', 1300, .3), ('all', 'dtd', 1, 2), ('all', 'model', 1, 3), ('walk', 'dtd', 3, 8, 300), ('near', 1800, 'dtd', 'att', 'model')],
            [*wide(6, 0.2), ('gen', 'dtd', 40000, .3), ('all', 'dtd', 1, 2), ('all', 'model', 1, 5), ('walk', 'dtd', 3, 12, 8000), ('walk', 'model', 4, 14, 4000), ('near', 99999, 'dtd', 'att', 'model')]),
    'C11': (anything, 'tdp',
            [*wide(1, 0.2), ('gen', 'att', 1500, .2), ('all', 'att', 1, 2), ('all', 'tag', 1, 2), ('walk', 'att', 2, 7, 500), ('near', 1200, 'att')],
            [*wide(6, 0.2), ('gen', 'att', 40000, .2), ('all', 'att', 1, 3), ('all', 'tag', 1, 4), ('walk', 'att', 3, 9, 8000), ('near', 99999, 'att')]),
    'C15': (anything, 'tdp',
            [*wide(1, 0.3), ('gen', 'decl', 1200, .4), ('all', 'decl', 1, 2), ('walk', 'decl', 2, 6, 500), ('enc', 900), ('near', 2500, 'decl', 'decl2')],
            [*wide(6, 0.3), ('gen', 'decl', 25000, .4), ('all', 'decl', 1, 3), ('walk', 'decl', 2, 8, 5000), ('enc', 12000), ('near', 99999, 'decl', 'decl2')]),
    'C17': (anything, 'tdp',
            [*wide(1, 0.1), ('gen', 'deep', 900, .1), ('big', 40), ('walk', 'ns', 5, 14, 300)],
            [*wide(6, 0.1), ('gen', 'deep', 20000, .1), ('big', 500), ('walk', 'ns', 5, 30, 5000)]),
}


def times(plan, k):
    """the plan with k times as many documents"""
    at = {'gen': 2, 'walk': 4, 'many': 1, 'chars': 1, 'big': 1, 'near': 1, 'enc': 1}
    return [x[:at[x[0]]] + (x[at[x[0]]] * k,) + x[at[x[0]] + 1:] if x[0] in at else x for x in plan]


def documents(run):
    relevant, want, quick, thorough = PLANS[run.prop]
    run.xml(times(quick, 2) if run.quick else thorough, relevant, want)


def fffd(run):
    """the known finding of C01"""
    b = '<a>\ufffd</a>'.encode()
    c = {'ID': 0, 'B': base64.b64encode(b).decode(), 'Want': ''}
    r = json.loads(run.sc.drive('parse', [c])[0])
    if not r.get('ok'):
        run.violate('rejected: %r' % b, {'kind': 'document', 'b': c['B'], 'mismatch': 'rejected'})


def show(o):
    return '%s(%s)' % (o[0], ', '.join([str(x) for x in o[1:3]] + [repr(''.join(map(chr, x))) for x in o[3:] if x]))


def edits(run):
    """C05: every operation in every structure of small pools of nodes, and
    random histories of many operations"""
    pools = ['el el tx tx', 'doc el el2 tx2', 'doc el at2 tx'] if run.quick else ['el el tx tx', 'doc el el2 tx2', 'doc el tx2 at2', 'doc el2 el tx tx2', 'doc el2 el tx co2', 'doc el2 er at tx2', 'el el tx co', 'el tx tx co er', 'el at at tx', 'el el tx pi er', 'el el el tx tx', 'el tx tx tx co']
    sets = []
    for p in pools:
        kinds = p.split()
        paths, st = dom.structures(run.sc, kinds, workers=8)
        run.states += st[1]
        run.transitions += st[0]
        run.count('structures of ' + p, structures=len(paths), transitions=st[0])
        sets.append(('all of ' + p, dom.exhaustive(run.sc, kinds, paths)))
    r = run.rng('edits')
    n = 3000 if run.quick else 24000
    sets.append(('histories', [dom.walk(r, r.randint(4, 40), i % 3 == 0) for i in range(n)]))
    sets.append(('long histories', [dom.walk(r, r.randint(20, 120), i % 3 == 0, 40) for i in range(n // 30)]))
    for name, cases in sets:
        res, st = dom.judge(run.sc, cases)
        run.states += st[1]
        run.transitions += st[0]
        for c, verdict, bad, at, line in res:
            run.traces += 1
            ops = c['Ops'] + (c['More'] if c['More'] else [])
            run.count(name, traces=1, operations=max(at, 0), stopped=int(verdict == 'unspec'))
            if len(ops) > 2:
                run.nontrivial.add((name, run.traces))
            if bad:
                h = c['Init'] + (c['Ops'][:at] if at > 0 or not c['More'] else c['Ops'] + [c['More'][-at - 1]])
                run.violate('%s after %s' % (bad, '; '.join(map(show, h))), {'kind': 'edits', 'ops': h, 'mismatch': bad})
        run.log(name, len(res), 'traces')
        for c, verdict, bad, at, line in r.sample(res, min(2, len(res))):
            run.sample({'operations': [show(o) for o in c['Init'] + c['Ops'][:12]], 'verdict': verdict, 'then': len(c['More'])})


def built(run):
    """C07: trees made with the constructors"""
    r = run.rng('built')
    trees = build.exhaustive(2) + build.charsweep(r, 1600 if run.quick else 99999) + build.random_trees(r.random(), 3600 if run.quick else 40000)
    if not run.quick:
        trees += build.exhaustive(3)
    res, st = build.judge(run.sc, trees)
    run.states += st[1]
    run.transitions += st[0]
    for c, verdict, bad, n, line in res:
        run.traces += 1
        run.count('trees', judged=1, tokens=n, unspecified=int(bad == 'dump unspec'))
        if n > 2:
            run.nontrivial.add(run.traces)
        if bad and bad != 'dump unspec':
            o = json.loads(line)
            run.violate('%s: %s %r' % (bad, o.get('derr', ''), bytes(o.get('dump', []))[:300]), {'kind': 'tree', 'tree': c['Tree'], 'mismatch': bad})
    for c, verdict, bad, n, line in r.sample(res, min(4, len(res))):
        run.sample({'tree': [t['k'] for t in c['Tree']], 'serialized': bytes(json.loads(line)['dump']).decode('utf8', 'replace')[:300]})
    run.log(len(res), 'trees')


PARTS = {p: [documents] for p in PLANS}
PARTS['C05'] = [edits]
PARTS['C07'] = [built]


def declared(run):
    """C18: look-ups after every short history of declarations, and after
    random ones of parsed document types"""
    sets, cases = [], []
    for p in decls.POOLS:
        cs, st = decls.exhaustive(run.sc, p, 3 if run.quick else 5)
        run.states += st[1]
        run.transitions += st[0]
        run.count('states of the tables: ' + p, states=len(cs), transitions=st[0])
        cases += cs
    sets.append(('states of the tables', cases))
    r = run.rng('declared')
    sets.append(('histories', [decls.walk(r, r.randint(1, 30 if i % 20 else 150)) for i in range(2000 if run.quick else 20000)]))
    for name, cases in sets:
        res, st = decls.judge(run.sc, cases)
        run.states += st[1]
        run.transitions += st[0]
        for c, verdict, bad, at in res:
            run.traces += 1
            run.count(name, traces=1, operations=abs(at), names=len(c['Names']), unspecified=int(verdict == 'unspec'))
            if len(c['Ops']) + len(c['More']) > 2:
                run.nontrivial.add((name, run.traces))
            if bad:
                h = c['Ops'][:at] if at >= 0 and not c['More'] else c['Ops'] + ([c['More'][-at - 1]] if at < 0 else [])
                doc = base64.b64decode(c.get('B', ''))
                run.violate('%s: %r; %s' % (bad, doc[:400], '; '.join(map(show, h))), {'kind': 'declarations', 'b': c.get('B', ''), 'ops': h, 'names': c['Names'], 'mismatch': bad})
        run.log(name, len(res), 'traces')
        for c, verdict, bad, at in r.sample(res, min(2, len(res))):
            run.sample({'document': base64.b64decode(c.get('B', '')).decode('utf8', 'replace')[:300], 'operations': [show(o) for o in c['Ops'][:12]], 'verdict': verdict, 'then': len(c['More'])})


PARTS['C18'] = [declared]


def linting(run):
    """C16"""
    l = lint.Lint(run.sc)
    r = run.rng('lint')
    cs, st = lint.cases(l, run.quick, r)
    run.states += st[1]
    run.transitions += st[0]
    res = lint.judge(l, cs)
    t = lint.terminal(l)
    if t is not None:
        res.append((('terminal', (), dict(out=[], status=1, msg=False), {}), '' if t[0] not in (None, 0) else 'a terminal as standard input: %r' % (t[0],), t))
    for (name, k, o, kw), wrong, (rc, out, err) in res:
        run.traces += 1
        run.count(name, runs=1, files=len(k))
        if len(k) > 1:
            run.nontrivial.add(k)
        if wrong:
            run.violate('%s: helium-lint %s (%s): status %r, message %r' % (wrong, ' '.join(k[:12]) or '< ' + repr(kw.get('stdin'))[:100], name, rc, (err or b'')[:300]),
                        {'kind': 'lint', 'files': [l.path[x] for x in k], 'expected': o, 'contents': {x: repr((lint.GOOD.get(x) or lint.BAD.get(x) or b'')[:300]) for x in k},
                         'mismatch': wrong})
    for (name, k, o, kw), wrong, (rc, out, err) in r.sample(res, 4):
        run.sample({'case': name, 'files': list(k[:10]), 'status': rc, 'printed': len(out or b''), 'message': (err or b'').decode('utf8', 'replace')[:200]})
    run.log(len(res), 'runs')


PARTS['C16'] = [linting]


def stackhist(run):
    """C17: histories of the stacks"""
    drv = stacks.build(run.sc)
    if drv is None:
        run.log('internal/stack is not what it was: its histories are left out')
        run.assumptions.append('the stacks of internal/stack were not run on their own')
        return
    hs, st = stacks.histories(run.sc, 4 if run.quick else 6)
    run.states += st[1]
    run.transitions += st[0]
    r = run.rng('stacks')
    cases = [(k, h) for h in hs for k in ('simple', 'unique', 'names')]
    for i in range(60 if run.quick else 1500):
        cases.append((r.choice(['simple', 'simple', 'unique', 'names']), stacks.walk(r, r.choice([30, 150, 600]))))
    res, st = stacks.judge(run.sc, drv, cases)
    run.states += st[1]
    run.transitions += st[0]
    for (kind, ops), bad, n in res:
        run.traces += 1
        run.count('histories of stacks', traces=1, operations=n)
        run.nontrivial.add(('stack', run.traces))
        if bad:
            run.violate('%s after %d operations on a stack (%s): %s' % (bad, n, kind, ops[max(0, n - 12):n]), {'kind': 'stack', 'stack': kind, 'ops': ops[:n], 'mismatch': bad})
    run.log(len(res), 'histories of stacks')


def faults(run):
    """C12"""
    st = handlers.model(run.sc)
    run.states += st[1]
    run.transitions += st[0]
    r = run.rng('faults')
    n = 3 if run.quick else 10
    plan = [('docs', [x.encode() for x in handlers.SPECIAL])]
    plan += [('gen', p, k * n, .25) for p, k in (('all', 90), ('content', 50), ('dtd', 50), ('ent', 50), ('ns', 20), ('att', 20), ('decl', 20))] + [('many', 30 * n, .1)]
    docs = [d for d in run.sources(plan) if len(d) < 6000]
    cs = handlers.cases(docs, r, not run.quick)
    run.log(len(cs), 'documents')
    res, st = handlers.judge(run.sc, cs)
    run.states += st[1]
    run.transitions += st[0]
    for c, f, bad, n in res:
        run.traces += 1
        run.count('runs', judged=1, notifications=n, faults=int(bool(f and f['Fault'])), unset=int(bool(f and f['Unset'])))
        if n > 2:
            run.nontrivial.add((c['ID'], f['Pure'], f['Fault'], tuple(f['Unset'])))
        if bad:
            run.violate('%s: %r with %s' % (bad, base64.b64decode(c['B'])[:200], f), {'kind': 'handler', 'b': c['B'], 'run': f, 'mismatch': bad})
    for c, f, bad, n in r.sample(res, 4):
        run.sample({'document': base64.b64decode(c['B']).decode('utf8', 'replace')[:300], 'run': f, 'notifications': n, 'mismatch': bad})
    run.log(len(res), 'runs')


def failing(run):
    """C13"""
    st = outputs.model(run.sc)
    run.states += st[1]
    run.transitions += st[0]
    r = run.rng('outputs')
    n = 2 if run.quick else 12
    plan = [('docs', [x.encode() for x in handlers.SPECIAL] + outputs.LATIN)]
    plan += [('gen', p, k * n, .02) for p, k in (('all', 40), ('content', 15), ('dtd', 45), ('ent', 20), ('ns', 15), ('att', 25), ('decl', 20))] + [('many', 16 * n, .02)]
    docs = [d for d in run.sources(plan) if len(d) < 2500]
    res, st, skipped = outputs.judge(run.sc, docs, r, 60 if run.quick else 400)
    run.states += st[1]
    run.transitions += st[0]
    run.log(len(docs), 'documents,', skipped, 'not accepted')
    for b, f, w, bad, n in res:
        run.traces += 1
        run.count(w or 'crash', runs=1, bytes=n)
        if f:
            run.count('destinations', **{f['mode']: 1})
            run.nontrivial.add((b, w, f['mode'], f['k']))
        if bad:
            run.violate('%s: %s of %r to %s' % (bad, w, b[:200], f), {'kind': 'output', 'b': base64.b64encode(b).decode(), 'call': w, 'run': f, 'mismatch': bad})
    for b, f, w, bad, n in r.sample(res, 4):
        run.sample({'document': b.decode('utf8', 'replace')[:300], 'call': w, 'destination': f, 'taken': n, 'mismatch': bad})
    run.log(len(res), 'runs')


def hostile(run):
    """C03"""
    r = run.rng('hostile')
    q = run.quick
    enc = lambda k, docs: [(k, {'B': base64.b64encode(d).decode()}) for d in docs]
    n = 1 if q else 12
    docs = run.sources([('gen', p, k * n, .3) for p, k in (('all', 250), ('dtd', 150), ('ent', 150), ('att', 100), ('ns', 100), ('decl', 100), ('content', 100))] + [('many', 150 * n, .3)])
    small = [d for d in docs if len(d) < (250 if q else 700)]
    sets = [
        ('noise', enc('noise', robust.noise(r, 6000 * n)), 10),
        ('documents', enc('documents', docs + [x.encode() for x in handlers.SPECIAL]), 10),
        ('cut short', enc('cut short', robust.cuts(r.sample(small, min(len(small), 25 * n)) + [x.encode() for x in handlers.SPECIAL if len(x) < 400])), 10),
        ('damaged', enc('damaged', robust.damaged(r, docs * 4)), 10),
    ]
    gs, st = robust.graphs(run.sc, 23 if q else 2, run.seed)
    run.states += st[1]
    run.transitions += st[0]
    sets.append(('entity graphs', [('entity graphs', {'B': base64.b64encode(d.encode()).decode(), 'Class': c}) for d, c in gs], 40))
    sets.append(('bombs', [(k, {'B': base64.b64encode(d.encode()).decode()}) for k, d in robust.bombs().items()], 60))
    sets.append(('long', robust.long_cases(1000000 if q else 4000000, 9000000 if q else 30000000, 3000 if q else 8000), 90))
    for name, cases, limit in sets:
        r.shuffle(cases)
        res, st = robust.judge(run.sc, cases, limit)
        run.states += st[1]
        run.transitions += st[0]
        # what took too much is looked at again, alone
        slow = [x for x in res if x[2].endswith(('too long', 'too much memory')) or x[2] in ('timeout', 'memory')][:4]
        again = {}
        for k, c, bad, n, line in slow:
            (y,), st = robust.judge(run.sc, [(k, {f: v for f, v in c.items() if f != 'ID'})], limit)
            again[c['ID']] = y[2:]
        worst = 0
        for k, c, bad, n, line in res:
            if c['ID'] in again:
                bad, n, line = again[c['ID']]
            run.traces += 1
            o = json.loads(line)
            run.count(name, sessions=1, documents=int(n > 3), bytes=o.get('n', 0))
            run.nontrivial.add((name, c['ID']))
            worst = max([worst] + [s['ms'] for s in o.get('steps', [])])
            if bad:
                b = base64.b64decode(c['B'])[:200] if 'B' in c else c
                run.violate('%s: %s, %r' % (bad, k, b), {'kind': 'session', 'name': k, 'case': c if len(str(c)) < 100000 else 'lib/robust.py: ' + k, 'mismatch': bad})
        run.log(name, len(res), 'sessions, the longest step took', worst, 'ms')
        for k, c, bad, n, line in r.sample(res, min(1, len(res))):
            run.sample({'input': base64.b64decode(c['B'])[:200].decode('utf8', 'replace') if 'B' in c else c, 'steps': json.loads(line).get('steps')})


PARTS['C03'] = [hostile]
def isolation(run):
    """C14"""
    r = run.rng('isolation')
    st = isolate.model(run.sc)
    run.states += st[1]
    run.transitions += st[0]
    fam = [x.encode('latin1' if 'iso-8859-1' in x else 'utf8') for x in isolate.FAMILY]

    def judged(name, docs, cases, driver=None):
        res, st, nk = isolate.judge(run.sc, docs, cases, driver)
        run.states += st[1]
        run.transitions += st[0]
        for ths, bad, n, o in res:
            run.traces += 1
            run.count(name, histories=1, steps=n, threads=len(ths))
            run.nontrivial.add((name, run.traces))
            if bad:
                at = o['log'][:n][-6:] if 'log' in o else ''
                run.violate('%s: %s, step %d: %s' % (bad, name, n, at), {'kind': 'history', 'documents': [d.decode('latin1') for d in docs], 'threads': ths, 'step': n, 'mismatch': bad})
        run.log(name, len(res), 'histories,', nk, 'parses')
        for ths, bad, n, o in r.sample(res, min(2, len(res))):
            run.sample({'threads': [[(x['H'], x['P'], docs[x['D']][:60].decode('latin1')) for x in t[:4]] for t in ths[:3]], 'steps': n})

    # every sequence of a few operations
    base = [{'K': 'parse', 'P': p, 'D': d, 'H': h, 'N': n, 'In': []} for p, d, h, n in
            ((0, 0, 'tree', 0), (0, 1, 'tree', 0), (0, 3, 'tree', 0), (0, 5, 'tree', 0), (-1, 2, 'tree', 0), (10, 1, 'rec', 0), (10, 1, 'fault', 6), (0, 8, 'tree', 0))]
    base[5] = dict(base[5], N=5, In=[dict(base[0]), dict(base[4])])
    hs, st = isolate.histories(run.sc, len(base), 3 if run.quick else 4)
    run.states += st[1]
    run.transitions += st[0]
    judged('sequences of %d operations' % len(hs[0]), fam, [[[base[i] for i in h]] for h in hs])
    # random ones
    n = 250 if run.quick else 4000
    judged('one thread', fam, [[[isolate.op(r, len(fam), 0) for _ in range(r.randint(3, 12))]] for _ in range(n)])
    for i in range(2 if run.quick else 12):
        docs = [d for d in run.sources([('gen', p, 12, .3) for p in ('all', 'dtd', 'ent', 'ns', 'att')] + [('many', 10, .3)]) if len(d) < 3000]
        judged('generated documents', docs, [[[isolate.op(r, len(docs), 0) for _ in range(r.randint(3, 12))]] for _ in range(n // 4)])
    # at the same time, watched by the race detector
    race = run.sc.build_race_driver()
    if race is None:
        run.assumptions.append('the race detector was not available')
    many = lambda nd: [[isolate.op(r, nd, t) for _ in range(r.randint(3, 10))] for t in range(r.choice([2, 4, 8]))]
    judged('threads', fam, [many(len(fam)) for _ in range(60 if run.quick else 1500)], race)
    judged('threads of generated documents', docs, [many(len(docs)) for _ in range(60 if run.quick else 1000)])


PARTS['C14'] = [isolation]
PARTS['C12'] = [faults]
PARTS['C13'] = [failing]
PARTS['C17'].append(stackhist)
PARTS['C01'].append(fffd)

_XML = 'TLA+ machine of XML texts (spec/Xml.tla) with TLC: documents generated from its state space (%s), and traces of the real %s validated against it'
TECHNIQUES = {
    'C01': _XML % ('XmlGen', 'parser (all events)'), 'C02': _XML % ('XmlGen, mistakes completed', 'parser (verdict, events before it)'),
    'C04': _XML % ('XmlGen', 'tree builder (every node)'), 'C06': _XML % ('XmlGen', 'serializer (its text read by the machine, and serialized again)'),
    'C08': _XML % ('namespace alphabet', 'parser, tree and serializer'), 'C09': _XML % ('entity alphabet', 'parser, tree and serializer'),
    'C10': _XML % ('DTD and content model alphabets', 'parser, tree and serializer'), 'C11': _XML % ('attribute alphabet', 'parser, tree and serializer'),
    'C15': _XML % ('declaration alphabet, spec/Doc.tla and Encodings.tla', 'parser, document and serializer'),
    'C17': 'TLA+ machines of scope stacks (spec/Stack.tla) and of XML texts with TLC: all short histories replayed into the real stacks, traces of them and of deep documents validated',
    'C03': 'TLA+ machine of sessions with a budget and of entity graphs (spec/Robust.tla) with TLC: graphs enumerated by it and hostile input replayed, recorded sessions validated against it',
    'C05': 'TLA+ machine of trees under edits (spec/Dom.tla) with TLC: every operation in every structure of small pools, and random histories, replayed; every link of the real nodes validated against it',
    'C07': 'TLA+ machine of XML texts (spec/Xml.tla) with TLC: serializations of trees made by the real constructors are read by the machine and must denote these trees',
    'C12': 'TLA+ machine of failing and unset handlers (spec/Handler.tla) with TLC: faults at every event, recorded runs validated against it',
    'C13': 'TLA+ machine of a serializer and a failing destination (spec/Output.tla) with TLC: faults at bytes, recorded runs validated against it',
    'C14': 'TLA+ machine of isolated parses (spec/Isolation.tla) with TLC: histories enumerated by it, nested and concurrent ones (race detector) run, recorded steps validated against it',
    'C16': 'TLA+ machine of the goroutines and channel of helium-lint (spec/Lint.tla) with TLC: termination and outcome for every sequence of file conditions, each replayed with the real command',
}
TECHNIQUES['C18'] = 'TLA+ machine of the tables of document types (spec/Decls.tla, on top of Xml.tla) with TLC: every operation in every state reachable by short histories, and random histories after parsed documents, replayed; what the real look-ups find validated against it'
NOTES = {
    'C18': 'Exhaustive for short histories over small pools of names, random beyond. Names with more than one colon and content models that do not fit the type are left out. Trusts TLC and the recorder.',
    'C03': 'Budgets of time and memory are proportional to the size of the input with generous constants; what took too long is run again alone. Bounded sizes (1 MB, nesting 9 MB; thorough 4 MB, 30 MB). Trusts TLC and the recorder.',
    'C05': 'Exhaustive for small pools of nodes, random histories beyond. Raw setters, children of attributes other than text and references, and DTD nodes as operands are left out. Trusts TLC and the recorder.',
    'C07': 'All trees of two (thorough: three) nodes, every kind of character in every position, random trees. Trusts TLC and the recorder.',
    'C12': 'Compared with the same parse without faults, as recorded, which C01 and C02 judge. Positions up to 60. Trusts TLC and the recorder.',
    'C13': 'Sampled positions of sampled documents, all ways of failing. Trusts TLC and the recorder.',
    'C14': 'Concurrent schedules are those the Go runtime chose, watched by its race detector; sequences and nested parses are enumerated. Trusts TLC and the recorder.',
    'C16': 'The model is checked exhaustively; the command is run once for each sequence of conditions (schedules as they come). Trusts TLC.',
    'C17': 'The stacks themselves are run as long as internal/stack has the functions it has now; otherwise only through documents.',
}


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        sys.exit('usage: check.py PROPERTY [quick|thorough]')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    if prop not in PARTS:
        print('no check for', prop)
        return 2
    try:
        with pipe.Scratch() as sc:
            sc.build_driver()
            run = Run(prop, tier, seed, sc)
            for part in PARTS[prop]:
                part(run)
            return run.finish('model_checking', RULE)
    except pipe.Error as e:
        print('the check failed:', e)
        return 2
    except Exception:
        traceback.print_exc()
        return 2


if __name__ == '__main__':
    sys.exit(main())
