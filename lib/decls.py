"""Histories of declarations and look-ups, judged by the Decls machine."""
import base64, concurrent.futures as cf, json, os, random, re
import gen, pipe


def T(s):
    return [ord(c) for c in s]


def op(name, a=0, b=0, s='', u=''):
    return [name, a, b, T(s), T(u)]


def split(n):
    i = n.find(':')
    return [T(n[i + 1:]), T(n[:i])] if i > 0 else [T(n), []]


def element(x, type, name):
    return op('el', x, type, name, {3: '#PCDATA', 4: 'c'}.get(type, ''))


# a document with a type of its own (1) and one on its own (2)
NAMES = ['a', 'b', 'a:b', 'b:a', 'ab', 'lt']
POOLS = {
    'elements': [op('subset', 0, 0, 'a'), op('dtd'), element(1, 1, 'a'), element(1, 4, 'b:a'), element(2, 3, 'a'), element(1, 2, 'a:b'), element(2, 4, 'b:a'), op('rm', 1, 0, 'a'), op('rm', 1, 0, 'a', 'b'),
                 op('rm', 2, 0, 'b', 'a')],
    'entities': [op('subset', 0, 0, 'a'), op('dtd'), op('en', 0, 1, 'a', 'v'), op('en', 1, 4, 'a', 'w'), op('en', 1, 2, 'b', ''), op('en', 2, 3, 'b', 'n'), op('en', 2, 1, 'a', 'x'), op('en', 0, 5, 'b', ''), op('en', 1, 4, 'b', 'z')],
    'both': [op('subset', 0, 0, 'b'), element(1, 3, 'a'), element(1, 4, 'ab'), op('en', 0, 1, 'a', 'v'), op('en', 1, 1, 'ab', 'v'), op('en', 1, 4, 'a', 'w'), op('dtd'), element(2, 1, 'a'), op('en', 2, 1, 'a', '')],
}
MORE = [op('subset', 0, 0, 'd'), op('dtd')] + \
       [element(x, t, n) for x in (1, 2) for t in (1, 2, 3, 4) for n in ('a', 'b:a')] + \
       [op('el', x, t, 'b', c) for x in (1, 2) for t, c in ((0, ''), (1, '#PCDATA'), (2, 'c'), (3, ''), (4, ''), (5, '#PCDATA'), (5, ''), (-1, ''), (1, ''))] + \
       [op('en', x, t, n, 'v' if t in (1, 4) else 'n' if t == 3 else '') for x in (0, 1, 2) for t in range(0, 8) for n in ('a', 'b')] + \
       [op('rm', x, 0, *n) for x in (1, 2) for n in (('a',), ('b', 'a'), ('a', 'b'), ('b',))] + [op('en', 0, 1, 'lt', '&#60;'), element(1, 4, 'a:b'), element(1, 4, 'ab')]


def states(sc, name, steps, workers=4):
    """the histories that lead to every state of the tables (DeclsGen)"""
    f = sc.fresh('.pool')
    ops = POOLS[name]
    json.dump({'ops': ops, 'max': steps}, open(f, 'w'))
    out, st = sc.tlc1('DeclsGen', {'POOL': f}, workers=workers, timeout=600)
    paths = sorted(set(m.group(1) for m in re.finditer(r'^"PATH (\[.*\])"$', out, re.M)))
    return [[ops[i - 1] for i in json.loads(p)] for p in paths], st


def exhaustive(sc, name, steps):
    paths, st = states(sc, name, steps)
    return [{'Names': [split(n) for n in NAMES], 'Elems': [T('a')], 'Ops': p, 'More': [o for o in MORE if o[1] <= sum(q[0] in ('subset', 'dtd') for q in p)], 'Quiet': True} for p in paths], st


NAMED = re.compile(r'<!(?:ELEMENT|ATTLIST|ENTITY)[ \t\r\n]+(?:%[ \t\r\n]+)?([^\s<>"\'%]+)')
TOKEN = re.compile(r'[^\s<>"\'%&;()|,*+?#=\[\]!]+')


def walk(r, steps):
    """a document (or none), then declarations, removals and look-ups"""
    names = set(r.sample(NAMES + ['q:a', 'q:b', 'aa', 'x-1'], 5))
    doc = b''
    n = 0
    elems = []
    if r.random() < .6:
        g = gen.Gen(r.random(), r.choice(['dtd', 'dtd', 'att', 'ent']))
        s = g.doctype('zz0')
        while '[' not in s or len(s) > 1500:
            s = g.doctype('zz0')
        doc = (s + '<zz0/>').encode('utf-8', 'surrogatepass')
        el = NAMED.findall(s)
        elems = sorted(set(el))[:5]
        names |= set(el[:8]) | set(r.sample(sorted(set(TOKEN.findall(s))), min(6, len(set(TOKEN.findall(s))))))
        n = 1
    names = sorted(x for x in names if re.fullmatch(r'[^\W\d][\w.-]*(:[^\W\d][\w.-]*)?', x))
    # with prefix and local part changed, or the parts run together
    look = sorted(set(names) | {y + ':' + x for z in names if ':' in z for x, y in [z.split(':')]} | {z.replace(':', '') for z in names} | {r.choice(names) + ':' + r.choice(['a', 'b'])
                                                                                                          for _ in range(2) if ':' not in names[0]})
    look = [x for x in look if x.count(':') < 2][:16]
    ops = []
    for _ in range(steps):
        x = r.random()
        a = r.randint(0 if r.random() < .3 else min(n, 1), n)
        m = r.choice(names)
        if n < 1 or (x < .08 and n < 3):
            ops.append(op('dtd') if r.random() < .6 else op('subset', 0, 0, 'd'))
            # a second internal subset is refused
            n += not (ops[-1][0] == 'subset' and (doc or any(o[0] == 'subset' for o in ops[:-1])))
        elif x < .45 and a:
            ops.append(element(a, r.choice([1, 2, 3, 4, 4, 4]), m) if r.random() < .93 else op('el', a, r.choice([0, 1, 2, 3, 5]), m, ''))
        elif x < .80:
            ty = r.choice([1, 1, 1, 2, 3, 4, 4, 5, 6, 0, 7])
            ops.append(op('en', a, ty, re.sub('^(lt|gt|amp|apos|quot)$', 'l', m.replace(':', '')), {1: r.choice(['', 'v', 'a b', '<b/>']), 4: r.choice(['', 'w']), 3: 'n'}.get(ty, '')))
        elif x < .92 and a:
            s = split(m)
            ops.append(['rm', a, 0, *s])
        elif a:
            ops.append(op('reg', a, r.randint(1, 6)))
    return {'B': base64.b64encode(doc).decode(), 'Names': [split(x) for x in look], 'Elems': [T(e) for e in elems], 'Ops': ops, 'More': []}


def judge(sc, cases, limit=20):
    """[(case, verdict, mismatch, steps)], stats"""
    for i, c in enumerate(cases):
        c['ID'] = i
    res = sc.drive('decls', cases, limit)
    good, out = [], []
    for c in cases:
        line = res.get(c['ID'])
        if line is None:
            continue
        o = json.loads(line) if b'"crash"' in line else None
        if o and 'crash' in o:
            out.append((c, 'done', 'crash: ' + o['crash'], 0))
        else:
            good.append((c, line))
    good.sort(key=lambda g: -len(g[1]))
    k = max(1, min(len(good), max(pipe.JOBS, len(good) // 3000)))
    parts = [p for p in (good[i::k] for i in range(k)) if p]

    def job(part):
        f = sc.fresh('.trace')
        with open(f, 'wb') as fh:
            for c, l in part:
                fh.write(l)
        txt, st = sc.tlc1('DeclsTrace', {'TRACE': f})
        os.unlink(f)
        r = {}
        for i, verdict, bad, at in pipe.results(txt):
            r[i] = (verdict, bad, at)
        if len(r) != len(part):
            raise pipe.Error('TLC judged %d of %d traces' % (len(r), len(part)))
        return [(part[i - 1][0],) + v for i, v in r.items()], st

    states = trans = 0
    with cf.ThreadPoolExecutor(pipe.JOBS) as ex:
        for o, st in ex.map(job, parts):
            out += o
            states += st[1]
            trans += st[0]
    return out, (trans, states)
