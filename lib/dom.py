"""Edits of trees, judged by the Dom machine."""
import base64, collections, concurrent.futures as cf, json, os, random, re
import pipe

Z = []


def T(s):
    return [ord(c) for c in s]


def op(name, a=0, b=0, s='', u=''):
    return [name, a, b, T(s), T(u)]


def pool(kinds):
    """operations that make a document and nodes of these kinds; "el2" is an
    element of document 2"""
    ops = [op('doc')]
    n = collections.Counter()
    for k in kinds:
        d = 2 if k.endswith('2') else 1
        k = k.rstrip('2')
        n[k] += 1
        ops.append({'el': op('el', d, 0, 'e%d' % n[k]), 'tx': op('tx', d, 0, 'abcdef'[n[k] - 1]), 'co': op('co', d, 0, 'c%d' % n[k]),
                    'pi': op('pi', d, 0, 'p%d' % n[k], 'x'), 'er': op('er', d, 0, 'r%d' % n[k]), 'at': op('at', d, 0, 'a%d' % n[k], 'v'),
                    'doc': op('doc')}[k])
    return ops


def structures(sc, kinds, names=('child', 'sibling', 'replace', 'root'), workers=4):
    """every structure of the pool (DomGen), as paths"""
    f = sc.fresh('.pool')
    json.dump({'init': pool(kinds), 'ops': list(names)}, open(f, 'w'))
    out, st = sc.tlc1('DomGen', {'POOL': f}, workers=workers, timeout=600)
    paths = set()
    for m in re.finditer(r'^"PATH (\[.*\])"$', out, re.M):
        paths.add(m.group(1).replace('\\"', '"'))
    return sorted(paths), st


def exhaustive(sc, kinds, paths):
    """cases: every operation in every structure"""
    ini = pool(kinds)
    n = len(ini)
    more = [op(o, a, b) for o in ('child', 'sibling', 'replace') for a in range(1, n + 1) for b in range(0, n + 1)]
    docs = [i + 1 for i, o in enumerate(ini) if o[0] == 'doc']
    more += [op('root', d, b) for d in docs for b in range(0, n + 1)]
    more += [op('content', a, 0, 'z') for a in range(1, n + 1)]
    more += [op('own', a, d) for a in range(2, n + 1) for d in docs]
    kind = [o[0] for o in ini]
    more += [op('attr', a + 1, 0, 'x', 'y&lt;&#65;') for a in range(n) if kind[a] == 'el']
    more += [op('subset', 1, 0, 'd')]
    return [{'Init': ini, 'Ops': [op(*o) for o in json.loads(p)], 'More': more, 'Quiet': True} for p in paths]


VALUES = ['', 'v', 'a&lt;b', '&#65;', '&#x20;', 'x&e;y', '&e;', '&e;&e;', '&', '&;', 'a&b', '&#0;', '&#x;', '&#xD800;', '&undef;', 'a&amp;#65;', '&quot;\'"', '\u00e9\U00010000', '&a b;', '&#xx;', '&#;', '&#1114112;', '&#99999999999;']
TEXTS = ['', 'a', 'b ', '\n', '<&>', ']]>', '\u00e9', 'xyz']


def walk(r, steps, rich, most=9):
    """a random sequence of operations"""
    ini = pool([])
    kinds = ['doc']
    two = r.random() < .35
    if two:
        ini.append(op('doc'))
        kinds.append('doc')
    own = two and r.random() < .5
    for _ in range(r.randint(3, most)):
        k = r.choice(['el', 'el', 'el', 'tx', 'tx', 'co', 'pi', 'er'] + ['at'] * rich)
        if k == 'er' and r.random() < .4:
            k = 'cr'
        kinds.append(k)
        d = r.choice([1, 1, 2]) if two else 1
        v = r.choice(['', 'v', 'a&lt;b', '&#65;'])
        ini.append({'el': op('el', d, 0, r.choice('abcdef')), 'tx': op('tx', d, 0, r.choice(TEXTS)), 'co': op('co', d, 0, r.choice(TEXTS)),
                    'pi': op('pi', d, 0, r.choice('pqr'), r.choice(TEXTS)), 'er': op('er', d, 0, r.choice(['r', 'e'])), 'cr': op('cr', d, 0, r.choice(['r', '&#65;', '&e;', '#x41', '&e', 'e'])),
                    'at': op('at', d, 0, r.choice('xyz'), v)}[k])
        if k == 'at' and v:
            kinds.append('tx')
    n = len(kinds)
    els = [i + 1 for i, k in enumerate(kinds) if k == 'el'] or [0]
    ops = []
    extra = made = 0
    subset = not own and r.random() < .3
    if subset:
        if r.random() < .5:
            ops.append(op('root', 1, r.choice(els)))
        ops.append(op('subset', 1, 0, 'd'))
        if r.random() < .6:
            ops.append(op('entity', 1, 0, 'e', r.choice(['t', '', 'a b', '&lt;'])))
        made = len(ops) - (ops[0][0] == 'root')
    first = 0
    if own and els != [0]:
        # attributes, of which the numbers are known
        e = r.choice(els)
        first = r.randint(0, 4)
        ops += [op('attr', e, 0, 'stuv'[i]) for i in range(first)]
    for _ in range(steps):
        x = r.random() * (.92 if own else 1)
        if own and r.random() < .15:
            ops.append(op('own', r.randint(3, n + first), r.choice([1, 2])))
            continue
        if first and r.random() < .1:
            # the attributes and their element
            ops.append(op('own', r.choice([e, *range(n + 1, n + first + 1)]), r.choice([1, 2])))
            continue
        a, b = r.randint(1, n), r.randint(1, n)
        if r.random() < .1 and extra:
            b = n + made + first + r.randint(1, extra)     # a node made by an operation
        if x < .32:
            # mostly something can take children
            ops.append(op('child', r.choice(els) or 1 if r.random() < .6 else a if r.random() < .5 else 1, b if r.random() < .97 else 0))
        elif x < .56:
            ops.append(op('sibling', a, b if r.random() < .97 else 0))
        elif x < .70:
            ops.append(op('replace', a if kinds[a - 1] != 'doc' else n, b if r.random() < .97 else 0))
        elif x < .80:
            ops.append(op('content', a, 0, r.choice(TEXTS)))
            extra += kinds[a - 1] == 'el'
        elif x < .85:
            ops.append(op('root', r.choice([1, 2]) if two else 1, b if r.random() < .9 else 0))
        elif x < .92 and els != [0]:
            v = r.choice(VALUES)
            ops.append(op('attr', r.choice(els), 0, r.choice(['x', 'y', 'z', 'w']), v))
        elif x < .98 and els != [0]:
            ops.append(op(r.choice(['declare', 'use']), r.choice(els), 0, r.choice(['', 'p', 'q']), r.choice(['u', 'v'])))
        elif subset:
            # mostly there is one of that name
            ops.append(op('entity', 1, 0, 'e', 'other') if not any(kinds[i] == 'at' for i in range(n)) else op('cr', 1, 0, ''))
        elif two:
            ops.append(op('own', r.randint(3, n), r.choice([1, 2])))
    if r.random() < .15:
        ops.append(op('subset', 1, 0, 'd'))
    return {'Init': ini, 'Ops': ops, 'More': []}


def judge(sc, cases, limit=20):
    """[(case, verdict, mismatch, steps, line)], stats"""
    for i, c in enumerate(cases):
        c['ID'] = i
    res = sc.drive('dom', cases, limit)
    good = []
    out = []
    for c in cases:
        line = res.get(c['ID'])
        if line is None:
            continue
        o = json.loads(line) if b'"crash"' in line else None
        if o and 'crash' in o:
            out.append((c, 'done', 'crash: ' + o['crash'], 0, None))
        else:
            good.append((c, line))
    good.sort(key=lambda g: -len(g[1]))
    k = max(1, min(len(good), max(pipe.JOBS, len(good) // 3000)))
    parts = [p for p in (good[i::k] for i in range(k)) if p]

    def job(part):
        f = sc.fresh('.trace')
        with open(f, 'wb') as fh:
            for c, l in part:
                fh.write(l)
        txt, st = sc.tlc1('DomTrace', {'TRACE': f})
        os.unlink(f)
        r = {}
        for i, verdict, bad, at in pipe.results(txt):
            r[i] = (verdict, bad, at)
        if len(r) != len(part):
            raise pipe.Error('TLC judged %d of %d traces' % (len(r), len(part)))
        return [(part[i - 1][0],) + v + (part[i - 1][1],) for i, v in r.items()], st

    states = trans = 0
    with cf.ThreadPoolExecutor(pipe.JOBS) as ex:
        for o, st in ex.map(job, parts):
            out += o
            states += st[1]
            trans += st[0]
    return out, (trans, states)
