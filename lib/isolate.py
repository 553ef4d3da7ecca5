"""Histories of parses, judged by the Isolation machine (C14)."""
import base64, concurrent.futures as cf, json, os, re, subprocess
import pipe

# documents which use the same names for different things, fail at different places, and leave things open
FAMILY = [
    '<!DOCTYPE a [<!ENTITY e "one"><!ATTLIST a b CDATA "x" i ID #IMPLIED><!ELEMENT a (b|c)*>]><a xmlns="u" xmlns:p="v" i=" q "><p:b>&e;&lt;</p:b><b xmlns=""/></a>',
    '<!DOCTYPE a [<!ENTITY e "<b>two&f;</b>"><!ENTITY f "&#65;&amp;"><!ATTLIST a b NMTOKENS "y  z" i CDATA "j"><!ELEMENT a ANY>]><a i=" q " c="&f;">&e;<p:b xmlns:p="w"/>&f;&e;</a>',
    '<a b=" x  y "><p:b xmlns:p="z" p:c="d">t</p:b>&amp;&#x42;<![CDATA[&e;]]><!--c--><?p q?></a>',
    '<a>&e;</a>', '<a><p:b/></a>', '<!DOCTYPE a [<!ENTITY e "one"><!ATTLIST a b CDATA "x">]><a xmlns:p="v"><p:b>&e;</a>',
    '<!DOCTYPE a [<!ENTITY e "&f;"><!ENTITY f "&e;">]><a>&e;</a>', '<!DOCTYPE a [<!ENTITY e "<p:b>"><!ENTITY f "x">]><a xmlns:p="v">&f;&e;</a>',
    '<?xml version="1.0" encoding="iso-8859-1" standalone="yes"?><a b="\u00e9">\u00e9&#233;</a>', '<?xml version="1.1" standalone="no"?>\n<a>\r\n\r</a>\r\n', '\ufeff<a>x</a>',
    '<a>\n <b>\n  <c> x </c>\n </b>\n</a>\n', '<!DOCTYPE b [<!ELEMENT a ((b,c)+|d?)*><!ELEMENT b EMPTY><!ATTLIST b e (f|g) "f" h CDATA #FIXED "i">]><b/>',
    '<a' + ''.join(' a%d="%d"' % (i, i) for i in range(30)) + '>' + '<b>' * 30 + 'x' + '</b>' * 30 + '</a>', '<a><b><c>', '', '<a>x</a>y', '<!DOCTYPE a [<!ENTITY % p "q"><!ENTITY lt "&#38;#60;"><!--c--><?d e?>]><a>&lt;</a>',
    '<a xmlns:p="u" xmlns:q="u" p:b="1" q:b="2"/>', '<a b="&e;"/>', '<!DOCTYPE a [<!ENTITY e "v"><!ATTLIST a b CDATA "&e;" xmlns:p CDATA "w">]><a><p:c/></a>',
    '<?xml version="1.0" encoding="nonsense"?><a/>', '<a>' + 'long text ' * 300 + '</a>', '<!DOCTYPE a SYSTEM "s" [<!ENTITY e PUBLIC "p" "s">]><a>x</a>',
]


def model(sc):
    return sc.tlc1('Isolation', cfg='IsolationModel.cfg', workers=4)[1]


def histories(sc, nops, n):
    f = sc.fresh('.hist')
    json.dump({'ops': nops, 'max': n}, open(f, 'w'))
    out, st = sc.tlc1('Isolation', {'HIST': f}, cfg='IsolationHist.cfg', workers=4)
    return [[i - 1 for i in json.loads(m.group(1))] for m in re.finditer(r'^"HIST (\[.*\])"$', out, re.M)], st


def op(r, nd, thread, depth=0):
    h = r.choice(['tree', 'tree', 'rec', 'pure', 'fault'])
    p = r.choice([-1, -2, 0, 1, 10]) if h == 'tree' else r.choice([-2, 10, 11])
    o = {'K': 'parse', 'P': p, 'D': r.randrange(nd), 'H': h, 'N': 0, 'In': []}
    if p == 10 and h == 'tree':
        o['P'] = 12    # a parser that keeps its first handler
    if h == 'fault':
        o['N'] = r.randrange(1, 9)
    elif h != 'tree' and depth < 2 and r.random() < .5:
        o['N'] = r.randrange(1, 7)
        o['In'] = [op(r, nd, thread, depth + 1) for _ in range(r.choice([1, 1, 2]))]
    return o


def keys(ops):
    for o in ops:
        if o['K'] == 'parse':
            yield (o['D'], o['H'], o['N'])
            yield from keys(o['In'])


def references(sc, docs, ks):
    """the digest of each parse, in a process of its own"""
    def one(k):
        d, h, n = k
        c = {'ID': 0, 'Docs': [base64.b64encode(docs[d]).decode()], 'Threads': [[{'K': 'parse', 'P': -2, 'D': 0, 'H': h, 'N': n, 'In': []}]]}
        o = json.loads(sc.drive1('isolate', [c], 20)[0])
        if 'crash' in o:
            return k, 'crash'
        return k, [e['d'] for e in o['log'] if e['k'] == 'end'][0]
    with cf.ThreadPoolExecutor(pipe.JOBS) as ex:
        return dict(ex.map(one, ks))


def judge(sc, docs, cases, driver=None):
    """cases: threads; [(threads, mismatch, step, log)]"""
    ks = sorted({k for ths in cases for t in ths for k in keys(t)})
    refs = references(sc, docs, ks)
    name = lambda k: '%d%s%d' % (k[0] + 1, k[1], k[2])
    b64 = [base64.b64encode(d).decode() for d in docs]
    cs = [{'ID': i, 'Docs': b64, 'Threads': t} for i, t in enumerate(cases)]
    os.environ['VX_PROCS'] = '4'
    res = sc.drive('isolate', cs, 60, driver)
    todo = []
    for c in cs:
        if c['ID'] not in res:
            continue
        o = json.loads(res[c['ID']])
        o['nt'] = len(c['Threads'])
        o['ref'] = {name(k): refs[k] for t in c['Threads'] for k in keys(t)}
        todo.append((c, o))
    parts = [p for p in (todo[i::pipe.JOBS] for i in range(pipe.JOBS)) if p]

    def job(part):
        f = sc.fresh('.trace')
        with open(f, 'w') as fh:
            for c, o in part:
                fh.write(json.dumps(o) + '\n')
        out, st = sc.tlc1('Isolation', {'TRACE': f}, cfg='IsolationTrace.cfg')
        os.unlink(f)
        rs = list(pipe.results(out))
        if len(rs) != len(part):
            raise pipe.Error('TLC judged %d of %d histories' % (len(rs), len(part)))
        return [(part[t - 1][0]['Threads'], bad, n, part[t - 1][1]) for t, bad, n in rs], st

    out, states, trans = [], 0, 0
    with cf.ThreadPoolExecutor(pipe.JOBS) as ex:
        for o, st in ex.map(job, parts):
            out += o
            states += st[1]
            trans += st[0]
    return out, (trans, states), len(ks)
