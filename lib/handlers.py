"""Faults and gaps in event handlers, judged by the Handler machine (C12)."""
import base64, concurrent.futures as cf, json, os
import pipe

KINDS = ['atd', 'cd', 'ch', 'co', 'eld', 'ed', 'ee', 'ent', 'es', 'iw', 'is', 'notation', 'pi', 'rf', 'sl', 'sd', 'se', 'unparsed']
NERR = 7

# documents with what the XML machine leaves open, too
SPECIAL = [
    '<!DOCTYPE a SYSTEM "x.dtd"><a/>', '<!DOCTYPE a PUBLIC "-//p//q" "x.dtd"><a>b</a>', "<!DOCTYPE a SYSTEM 'x' [<!ENTITY e 'v'>]><a>&e;</a>",
    '<!DOCTYPE a [<!ENTITY e SYSTEM "x">]><a>&e;b</a>', '<!DOCTYPE a [<!ENTITY e PUBLIC "p" "x"><!ENTITY f "g">]><a>b<c/>&f;</a>',
    '<!DOCTYPE a [<!ENTITY % e SYSTEM "x"><!ENTITY % f PUBLIC "p" "x"><!ENTITY % g "h">]><a/>',
    '<!DOCTYPE a [<!NOTATION n SYSTEM "x"><!ENTITY e SYSTEM "x" NDATA n>]><a/>', '<!DOCTYPE a [<!NOTATION n PUBLIC "x">]><a/>',
    '<!DOCTYPE a [<!ENTITY % p "<!ELEMENT a ANY>"> %p; <!ELEMENT b ANY>]><a/>',
    '<!DOCTYPE a [<!ATTLIST a b (x|y) "x" c NMTOKENS #IMPLIED d ID #REQUIRED e CDATA #FIXED "f"><?p q?><!--r--><!ELEMENT a (b,(c|d)*)>]><a d="i">s<b/></a><!--t--><?u?>',
    '<!DOCTYPE a [<!ENTITY e "<b>x&f;</b>y"><!ENTITY f "<c/>z">]><a>&e;<d>&f;&e;</d>&lt;&#65;&amp;</a>',
    '<!DOCTYPE a [<!ENTITY e "x"><!ENTITY f "&e;">]><a b="&f;&e;">&f;<![CDATA[&f;]]></a>',
    '<a>\n <b/>\n <c> </c>\n</a>\n', '<?xml version="1.0" encoding="iso-8859-1"?><a>\u00e9</a>', '<?xml version="1.0" standalone="yes"?><!--c--><a/>',
    '<a><b></a>', '<a>x&y;</a>', '<a/>x', '', '<a>x', '<a><!--x', '<a b="c" b="d"/>', '<a>x<b/>y<![CDATA[z]]><?p q?><!--c--></a><b/>',
    '\ufeff<a/>', '<a xml:space="preserve"> <b> </b> </a>', '<a>' + 'x' * 5000 + '</a>', '<a>' + '<b>y</b>' * 50 + '</a>', '<a><![CDATA[]]></a>', '<a><![CDATA[ ]]> </a>',
]


def cases(docs, r, many):
    cs = []
    for i, b in enumerate(docs):
        runs = []
        if many:
            ks = range(1, 61)
        else:
            ks = list(range(1, 13)) + [r.randrange(13, 40) for _ in range(5)]
        for k in ks:
            runs.append({'Pure': False, 'Fault': k, 'Err': r.randrange(NERR), 'Unset': []})
            runs.append({'Pure': True, 'Fault': k, 'Err': r.randrange(NERR), 'Unset': []})
        for k in KINDS:
            if many or r.random() < .5:
                runs.append({'Pure': True, 'Fault': 0, 'Err': 0, 'Unset': [k]})
            if many or r.random() < .3:
                runs.append({'Pure': True, 'Fault': 0, 'Err': 0, 'Unset': [x for x in KINDS if x != k]})
        for _ in range(40 if many else 8):
            un = r.sample(KINDS, r.randrange(len(KINDS) + 1))
            runs.append({'Pure': True, 'Fault': r.choice([0, 0, r.randrange(1, 12)]), 'Err': r.randrange(NERR), 'Unset': un})
        cs.append({'ID': i, 'B': base64.b64encode(b).decode(), 'Runs': runs})
    return cs


def model(sc):
    return sc.tlc1('Handler', cfg='HandlerModel.cfg', workers=8)[1]


def judge(sc, cs):
    """[(case, run or None, mismatch, notifications)]"""
    res = sc.drive('fault', cs)
    out = []
    todo = []
    for c in cs:
        line = res.get(c['ID'])
        if line is None:
            continue
        if b'"crash":' in line[:4000] and 'crash' in json.loads(line):
            out.append((c, None, 'crash: ' + json.loads(line)['crash'], 0))
            continue
        todo.append((c, line))
    todo.sort(key=lambda x: -len(x[1]))
    n = max(1, min(len(todo), max(pipe.JOBS, len(todo) // 250)))
    parts = [p for p in (todo[i::n] for i in range(n)) if p]

    def job(part):
        f = sc.fresh('.trace')
        with open(f, 'wb') as fh:
            for c, line in part:
                fh.write(line)
        o, st = sc.tlc1('Handler', {'TRACE': f}, cfg='HandlerTrace.cfg')
        os.unlink(f)
        rs = list(pipe.results(o))
        if len(rs) != sum(len(c['Runs']) for c, line in part):
            raise pipe.Error('TLC judged %d of %d runs' % (len(rs), sum(len(c['Runs']) for c, line in part)))
        return [(part[d - 1][0], part[d - 1][0]['Runs'][a - 1], bad, n) for d, a, bad, n in rs], st

    states = trans = 0
    with cf.ThreadPoolExecutor(pipe.JOBS) as ex:
        for o, st in ex.map(job, parts):
            out += o
            states += st[1]
            trans += st[0]
    return out, (trans, states)
