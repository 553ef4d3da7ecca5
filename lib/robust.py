"""Arbitrary and hostile input, judged by the Robust machine (C03)."""
import base64, concurrent.futures as cf, json, os, random
import gen, pipe

# long inputs: head + unit * n + mid + tail * n + end; the third number is the size in bytes for the quick tier
LONG = {
    'text': ('<a>', 'some text ', '', '', '</a>'), 'brackets': ('<a>', ']] ]', '', '', '</a>'), 'char refs': ('<a>', '&#65;', '', '', '</a>'),
    'predefined': ('<a>', '&lt;', '', '', '</a>'), 'newlines': ('<a>', '\r\n', '', '', '</a>'), 'crs': ('<a>', '\r', '', '', '</a>'), 'wide': ('<a>', '\u4e2d\U0001F600', '', '', '</a>'),
    'comment': ('<a><!--', '- ', '', '', '--></a>'), 'comment open': ('<a><!--', '- ', '', '', ''), 'comment lines': ('<!--', '\n', '', '', '--><a/>'),
    'pi': ('<a><?p ', '? ', '', '', '?></a>'), 'pi open': ('<a><?p ', '? ', '', '', ''), 'cdata': ('<a><![CDATA[', ']] ', '', '', ']]></a>'), 'cdata open': ('<a><![CDATA[', ']]', '', '', ''),
    'cdatas': ('<a>', '<![CDATA[x]]>', '', '', '</a>'), 'comments': ('<a>', '<!---->', '', '', '</a>'), 'pis': ('<a>', '<?p?>', '', '', '</a>'),
    'empty elements': ('<a>', '<b/>', '', '', '</a>'), 'elements': ('<a>', '<b>c</b>', '', '', '</a>'), 'elements open': ('<a>', '<b/>', '', '', ''),
    'elements, text': ('<a>', '<b/>c', '', '', '</a>'), 'tag open': ('', '<', '', '', ''), 'amps': ('<a>', '&', '', '', '</a>'), 'refs': ('<a>', '&a', '', '', '</a>'),
    'blanks': ('<a>', ' ', '', '', '</a>'), 'tag blanks': ('<a', ' ', '', '', '/>'), 'end blanks': ('<a></a', ' ', '', '', '>'), 'misc blanks': ('<a/>', '\n', '', '', ''), 'misc blanks before': ('', '\n', '', '', '<a/>'),
    'misc': ('<a/>', '<!--c--><?p?>', '', '', ''), 'misc before': ('', '<!--c--><?p?>', '', '', '<a/>'), 'prefixes': ('<a>', '<p:b xmlns:p="u"/>', '', '', '</a>'),
    'value': ('<a b="', 'v ', '', '', '"/>'), 'value open': ('<a b="', 'v ', '', '', ''), 'value refs': ('<a b="', '&#10;&amp;', '', '', '"/>'), 'value lines': ('<a b="', '\n\t', '', '', '"/>'),
    'value ids': ('<!DOCTYPE a [<!ATTLIST a b NMTOKENS #IMPLIED>]><a b="', ' v  ', '', '', '"/>'), 'ns value': ('<a xmlns="', 'u', '', '', '"/>'),
    'deep': ('', '<a>', '', '</a>', ''), 'deep open': ('', '<a>', '', '', ''), 'deep ns': ('', '<p:a xmlns:p="u">', '', '</p:a>', ''), 'deep text': ('', '<a>x', '', 'y</a>', ''),
    'deep close': ('<a>', '', '', '</a>', ''), 'deep default ns': ('', '<a xmlns="u"><b xmlns="">', '', '</b></a>', ''), 'deep attributes': ('', '<a b="c">', '', '</a>', ''),
    'entity value': ('<!DOCTYPE a [<!ENTITY e "', 'v ', '', '', '">]><a>&e;</a>'), 'entity value refs': ('<!DOCTYPE a [<!ENTITY e "', '&#38;#65;', '', '', '">]><a>&e;</a>'),
    'entity open': ('<!DOCTYPE a [<!ENTITY e "', 'v ', '', '', ''), 'entity uses': ('<!DOCTYPE a [<!ENTITY e "v">]><a>', '&e;', '', '', '</a>'),
    'entity elements': ('<!DOCTYPE a [<!ENTITY e "', '<b/>', '', '', '">]><a>&e;</a>'), 'entity uses in value': ('<!DOCTYPE a [<!ENTITY e "v">]><a b="', '&e;', '', '', '"/>'),
    'entity deep': ('<!DOCTYPE a [<!ENTITY e "', '<b>', '', '</b>', '">]><a>&e;</a>'),
    'dtd blanks': ('<!DOCTYPE a [', '\n ', '', '', ']><a/>'), 'dtd comments': ('<!DOCTYPE a [', '<!--c-->', '', '', ']><a/>'), 'dtd pis': ('<!DOCTYPE a [', '<?p?>', '', '', ']><a/>'), 'dtd open': ('<!DOCTYPE a [', ' ', '', '', ''),
    'choice': ('<!DOCTYPE a [<!ELEMENT a (b', '|b', '', '', ')>]><a/>'), 'sequence': ('<!DOCTYPE a [<!ELEMENT a (b', ',b', '', '', ')>]><a/>'), 'mixed': ('<!DOCTYPE a [<!ELEMENT a (#PCDATA', '|b', '', '', ')*>]><a/>'),
    'groups': ('<!DOCTYPE a [<!ELEMENT a (b', ',(b|c)', '', '', ')>]><a/>'), 'parens': ('<!DOCTYPE a [<!ELEMENT a ', '(', 'b', ')', '>]><a/>'), 'parens open': ('<!DOCTYPE a [<!ELEMENT a ', '(', '', '', ''),
    'parens, names': ('<!DOCTYPE a [<!ELEMENT a ', '(a,', 'b', ')', '>]><a/>'), 'parens, choices': ('<!DOCTYPE a [<!ELEMENT a ', '(a|', '', '', ''), 'parens later': ('<!DOCTYPE a [<!ELEMENT a ', '(', '(b', '),c', ')>]><a/>'),
    'parens mixed': ('<!DOCTYPE a [<!ELEMENT a (#PCDATA', '|(', '', '', ''), 'parens enumeration': ('<!DOCTYPE a [<!ATTLIST a b ', '(', 'c', ')', ' #IMPLIED>]><a/>'),
    'model blanks': ('<!DOCTYPE a [<!ELEMENT a (b', ' ', '', '', ')>]><a/>'), 'redeclared entities': ('<!DOCTYPE a [', '<!ENTITY e "v">', '', '', ']><a>&e;</a>'),
    'redeclared attributes': ('<!DOCTYPE a [', '<!ATTLIST a b CDATA #IMPLIED>', '', '', ']><a/>'), 'pe uses': ('<!DOCTYPE a [<!ENTITY % p "<!--c-->">', '%p;', '', '', ']><a/>'),
    'default value': ('<!DOCTYPE a [<!ATTLIST a b CDATA "', 'v&lt; ', '', '', '">]><a/>'), 'public': ('<!DOCTYPE a PUBLIC "', 'p ', '', '', '" "s"><a/>'), 'system': ('<!DOCTYPE a SYSTEM "', 's ', '', '', '"><a/>'),
    'declaration blanks': ('<?xml version="1.0"', ' ', '', '', '?><a/>'), 'version': ('<?xml version="1.', '0', '', '', '"?><a/>'), 'encoding': ('<?xml version="1.0" encoding="', 'u', '', '', '"?><a/>'),
    'zeros': ('<a>&#', '0', '', '', '65;</a>'), 'digits': ('<a>&#', '6', '', '', ';</a>'), 'hex digits': ('<a>&#x', 'f', '', '', ';</a>'), 'nuls': ('', '\0', '', '', ''), 'bad utf8': ('<a>', '\x80', '', '', '</a>'),
    'latin1': ('<?xml version="1.0" encoding="iso-8859-1"?><a>', 'x ', '', '', '</a>'),
    'name': ('<', 'a', '', '', '/>'), 'attribute name': ('<a ', 'b', '', '', '="c"/>'), 'entity name': ('<a>&', 'b', '', '', ';</a>'), 'pi name': ('<?', 'b', '', '', '?><a/>'), 'colons': ('<', 'a:', '', '', '/>'),
    'doctype name': ('<!DOCTYPE ', 'b', '', '', '><a/>'), 'no markup': ('', 'x', '', '', ''),
}


def numbered(kind, n):
    """long inputs that do not just repeat"""
    if kind == 'attributes':
        return '<a ' + ' '.join('b%d="c"' % i for i in range(n)) + '/>'
    if kind == 'namespaces':
        return '<a ' + ' '.join('xmlns:b%d="c%d"' % (i, i) for i in range(n)) + '/>'
    if kind == 'prefixed attributes':
        return '<a ' + ' '.join('xmlns:b%d="c%d" b%d:d="e"' % (i, i, i) for i in range(n)) + '/>'
    if kind == 'entities':
        return '<!DOCTYPE a [' + ''.join('<!ENTITY e%d "v">' % i for i in range(n)) + ']><a>' + ''.join('&e%d;' % i for i in range(n)) + '</a>'
    if kind == 'elements declared':
        return '<!DOCTYPE a [' + ''.join('<!ELEMENT e%d EMPTY>' % i for i in range(n)) + ']><a/>'
    if kind == 'attributes declared':
        return '<!DOCTYPE a [' + ''.join('<!ATTLIST a b%d CDATA "v">' % i for i in range(n)) + ']><a/>'
    if kind == 'attributes declared in one':
        return '<!DOCTYPE a [<!ATTLIST a ' + ' '.join('b%d CDATA #IMPLIED' % i for i in range(n)) + '>]><a b1="c"/>'
    if kind == 'elements with attributes declared':
        return '<!DOCTYPE a [' + ''.join('<!ATTLIST a%d b ID #IMPLIED>' % i for i in range(n)) + ']><a>' + ''.join('<a%d b="i%d"/>' % (i, i) for i in range(n)) + '</a>'
    if kind == 'enumeration':
        return '<!DOCTYPE a [<!ATTLIST a b (' + '|'.join('e%d' % i for i in range(n)) + ') #IMPLIED>]><a/>'
    if kind == 'mixed names':
        return '<!DOCTYPE a [<!ELEMENT a (#PCDATA' + ''.join('|e%d' % i for i in range(n)) + ')*>]><a/>'
    if kind == 'deep names':
        return ''.join('<e%d>' % i for i in range(n)) + ''.join('</e%d>' % i for i in reversed(range(n)))
    if kind == 'deep namespaces':
        return ''.join('<e xmlns:p%d="u">' % i for i in range(n)) + '<p0:x/>' + '</e>' * n
    if kind == 'deep lookups':
        return '<p:a xmlns:p="u">' + '<p:b xmlns:q="v">' * n + '</p:b>' * n + '</p:a>'
    if kind == 'parameter entities':
        return '<!DOCTYPE a [' + ''.join('<!ENTITY %% e%d "v">' % i for i in range(n)) + ']><a/>'
    raise KeyError(kind)


NUMBERED = ['attributes', 'namespaces', 'prefixed attributes', 'entities', 'elements declared', 'attributes declared', 'attributes declared in one',
            'elements with attributes declared', 'enumeration', 'mixed names', 'deep names', 'deep namespaces', 'deep lookups', 'parameter entities']


# what parsing must end in.  Documents which are just long are accepted; of names, nesting and parentheses beyond all
# measure, and of what parsers may refuse for other reasons, nothing is promised
DOCUMENTS = {'text', 'brackets', 'char refs', 'predefined', 'newlines', 'crs', 'wide', 'comment', 'comment lines', 'pi', 'cdata', 'cdatas', 'comments', 'pis', 'empty elements',
             'elements', 'elements, text', 'blanks', 'tag blanks', 'end blanks', 'misc blanks', 'misc blanks before', 'misc', 'misc before', 'prefixes', 'value', 'value refs', 'value lines',
             'value ids', 'ns value', 'entity value', 'entity value refs', 'entity uses', 'entity elements', 'entity uses in value', 'dtd blanks', 'dtd comments', 'dtd pis', 'choice',
             'sequence', 'mixed', 'groups', 'model blanks', 'redeclared entities', 'redeclared attributes', 'default value', 'declaration blanks', 'latin1',
             'attributes', 'namespaces', 'prefixed attributes', 'entities', 'elements declared', 'attributes declared', 'attributes declared in one', 'elements with attributes declared',
             'enumeration', 'mixed names', 'parameter entities'}
ERRORS = {'comment open', 'pi open', 'cdata open', 'elements open', 'tag open', 'amps', 'refs', 'value open', 'deep open', 'deep close', 'entity open', 'dtd open', 'parens open', 'parens, choices',
          'parens mixed', 'parens enumeration', 'digits', 'hex digits', 'nuls', 'colons', 'no markup'}


def outcome(kind):
    return 'document' if kind in DOCUMENTS else 'error' if kind in ERRORS else 'any'


def laughs(n, k, base, use):
    d = '<!ENTITY e0 "%s">' % base + ''.join('<!ENTITY e%d "%s">' % (i, ('&e%d;' % (i - 1)) * k) for i in range(1, n))
    return '<!DOCTYPE a [%s%s]>%s' % (d, use[0].replace('$', '&e%d;' % (n - 1)), use[1].replace('$', '&e%d;' % (n - 1)))


USES = {'content': ('', '<a>$</a>'), 'twice': ('', '<a>$<b>$</b></a>'), 'value': ('', '<a b="$"/>'), 'ns': ('', '<a xmlns="$"/>'),
        'prefix': ('', '<a xmlns:p="$" p:b="c"/>'), 'default': ('<!ATTLIST a b CDATA "$">', '<a/>'), 'default ns': ('<!ATTLIST a xmlns CDATA "$">', '<a><a/></a>'),
        'unused': ('', '<a/>'), 'in entity value': ('<!ENTITY f "<x y=\'$\'/>">', '<a>&f;</a>'), 'default many': ('<!ATTLIST a b CDATA "$">', '<a>' + '<a/>' * 50 + '</a>'),
        'tokens': ('<!ATTLIST a b NMTOKENS #IMPLIED>', '<a b=" $ "/>')}


def bombs():
    """entities that expand to very much, or to themselves"""
    d = {}
    for u, use in USES.items():
        for base in ('lol', '<x/>', '', '&#65;'):
            d['ten tens %s %s' % (base, u)] = laughs(10, 10, base, use)
            d['twos %s %s' % (base, u)] = laughs(38, 2, base, use)
        d['chain ' + u] = laughs(20000, 1, 'lol', use)
        d['chain of elements ' + u] = '<!DOCTYPE a [<!ENTITY e0 "x">%s%s]>%s' % (''.join('<!ENTITY e%d "<b>&e%d;</b>">' % (i, i - 1) for i in range(1, 5000)),
                                                                                 use[0].replace('$', '&e4999;'), use[1].replace('$', '&e4999;'))
        for name, decl in (('quad', '<!ENTITY e "%s">' % ('x' * 60000)), ('quad elements', '<!ENTITY e "%s">' % ('<b/>' * 10000)),
                           ('self', '<!ENTITY e "&e;">'), ('mutual', '<!ENTITY e "&f;"><!ENTITY f "&e;">'), ('mutual, through a value', '<!ENTITY e "<q r=\'&f;\'/>"><!ENTITY f "&e;">'),
                           ('mutual twice', '<!ENTITY e "&f;&f;"><!ENTITY f "<q r=\'&e;\'/>&e;">'), ('through char ref', '<!ENTITY e "&#38;e;">'), ('through two', '<!ENTITY e "&#38;#38;e;">'),
                           ('unbalanced', '<!ENTITY e "</a><a>">'), ('open', '<!ENTITY e "<b">'), ('half', '<!ENTITY e "&#38;">')):
            n = 20000 if name.startswith('quad') else 1
            d[name + ' ' + u] = '<!DOCTYPE a [%s%s]>%s' % (decl, use[0].replace('$', '&e;'), use[1].replace('$', '&e;' * n))
    d['pe tens'] = '<!DOCTYPE a [<!ENTITY % p0 "<!--x-->">' + ''.join('<!ENTITY %% p%d "%s">' % (i, ('&#37;p%d;' % (i - 1)) * 10) for i in range(1, 10)) + '%p9;]><a/>'
    d['pe in value'] = '<!DOCTYPE a [<!ENTITY % p0 "lol">' + ''.join('<!ENTITY %% p%d "%s">' % (i, ('%%p%d;' % (i - 1)) * 10) for i in range(1, 10)) + '<!ENTITY e "%p9;">]><a>&e;</a>'
    d['pe self'] = '<!DOCTYPE a [<!ENTITY % p "&#37;p;">%p;]><a/>'
    d['pe self in value'] = '<!DOCTYPE a [<!ENTITY % p "%p;">%p;]><a/>'
    d['pe declares'] = '<!DOCTYPE a [<!ENTITY % p "<!ENTITY &#37; p \'&#37;p;\'>&#37;p;">%p;]><a/>'
    d['default many'] = '<!DOCTYPE a [<!ATTLIST b c CDATA "%s">]><a>%s</a>' % ('x' * 50000, '<b/>' * 5000)
    return d


def graph(g, times, place):
    """the document of an entity graph of the Robust machine"""
    d = ''.join('<!ENTITY e%d "x%s">' % (i + 1, ''.join('&e%d;' % t for t in to) * n) for i, (to, n) in enumerate(g))
    r = '&e1;' * times
    if place == 'content':
        return '<!DOCTYPE a [%s]><a>%s</a>' % (d, r)
    if place == 'value':
        return '<!DOCTYPE a [%s]><a b="%s"/>' % (d, r)
    return '<!DOCTYPE a [%s<!ATTLIST a b CDATA "%s">]><a/>' % (d, r)


def graphs(sc, every, which):
    import re
    out, st = sc.tlc1('Robust', {'EVERY': str(every), 'WHICH': str(which % every)}, cfg='RobustGraph.cfg', workers=8)
    gs = [json.loads(m.group(1)) for m in re.finditer(r'^"GRAPH (\[.*\])"$', out.replace('\\"', '"'), re.M)]
    return [(graph(*x[:3]), x[3]) for x in gs], st


BOMS = [b'\xef\xbb\xbf', b'\xff\xfe', b'\xfe\xff', b'\0\0\0<', b'<\0\0\0', b'\0\0<\0', b'\0<\0\0', b'Lo\xa7\x94', b'<\0?\0', b'\0<\0?', b'<?xm']


def noise(r, n):
    """bytes of all kinds"""
    out = []
    soup = ['<', '>', '/', '&', ';', '"', "'", '=', '!', '?', '[', ']', '-', '--', '#', 'x', 'a', ':', 'xmlns', '<!', '<?', '?>', '/>', '</', ']]>', '<![CDATA[', '<!--', '-->', '<!DOCTYPE', '[', ']>',
            '<!ENTITY', '<!ELEMENT', '<!ATTLIST', '<!NOTATION', '%', '(', ')', '|', ',', '*', '+', '?', '#PCDATA', 'CDATA', 'SYSTEM', 'PUBLIC', 'NDATA', 'EMPTY', 'ANY', '#IMPLIED', '#FIXED', '#REQUIRED',
            ' ', ' ', '\n', '\t', '\r', '<?xml', 'version', 'encoding', 'standalone', '1.0', 'utf-8', 'yes', '<a>', '</a>', '<a/>', '&lt;', '&#65;', '&#x41;', '&e;', '%p;', '\x00', '\ufffd', '\u0301', '\U0010ffff']
    for i in range(n):
        x = r.random()
        if x < .25:
            b = bytes(r.randrange(256) for _ in range(r.choice([0, 1, 2, 3, 4, 8, 40])))
        elif x < .7:
            b = ''.join(r.choice(soup) for _ in range(r.randrange(1, 25))).encode()
        else:
            b = b'<a>' + ''.join(r.choice(soup) for _ in range(r.randrange(1, 12))).encode() + b'</a>'
        if r.random() < .15:
            b = r.choice(BOMS) + b
        if r.random() < .1:
            b = b.decode('utf8', 'replace').encode(r.choice(['utf-16le', 'utf-16be', 'utf-32be', 'utf-32le', 'utf-16']))
        if r.random() < .2:
            b = b.replace(b'"', b'', 1) + bytes([r.randrange(256)])
        out.append(b)
    return out


def cuts(docs):
    """documents that end early, everywhere"""
    return [d[:i] for d in docs for i in range(len(d) + 1)]


def damaged(r, docs):
    """documents with bytes changed, lost, doubled and moved"""
    out = []
    for d in docs:
        b = bytearray(d)
        for _ in range(r.choice([1, 1, 2, 5])):
            if not b:
                break
            i = r.randrange(len(b))
            j = min(len(b), i + r.choice([1, 1, 2, 5, 20]))
            x = r.randrange(5)
            if x == 0:
                del b[i:j]
            elif x == 1:
                b[i:i] = b[i:j]
            elif x == 2:
                b[i] = r.choice([0, 0x80, 0xff, 0xc3, 0x3c, 0x26, 0x5d, 0x2d, r.randrange(256)])
            elif x == 3:
                k = r.randrange(len(b))
                b[k:k] = b[i:j]
            else:
                b[i:i] = bytes(r.randrange(256) for _ in range(r.choice([1, 2, 4])))
        out.append(bytes(b))
    return out


def long_cases(size, deep, num):
    cs = []
    for k, (h, u, m, t, e) in LONG.items():
        n = deep if k.startswith(('deep', 'parens', 'entity deep')) else size
        if k in ('parens, names', 'parens, choices'):
            n = 3 * deep
        if k == 'empty elements':
            n = max(n, 1300000)     # more than may be nested
        if not u + t:
            continue
        cs.append((k, dict(Head=h, Unit=u, N=max(1, n // len((u + t).encode())), Mid=m, Tail=t, End=e, Class=outcome(k))))
    for k in NUMBERED:
        cs.append((k, dict(B=base64.b64encode(numbered(k, num).encode()).decode(), Class=outcome(k))))
    return cs


def judge(sc, cases, limit):
    """cases: (name, fields); [(name, case, mismatch, steps, line)]"""
    cs = [dict(c, ID=i) for i, (k, c) in enumerate(cases)]
    res = sc.drive('robust', cs, limit)
    todo = [(k, c, res[c['ID']]) for (k, _), c in zip(cases, cs) if c['ID'] in res]
    parts = [p for p in (todo[i::pipe.JOBS] for i in range(pipe.JOBS)) if p]

    def job(part):
        f = sc.fresh('.trace')
        with open(f, 'wb') as fh:
            for k, c, line in part:
                fh.write(line)
        o, st = sc.tlc1('Robust', {'TRACE': f}, cfg='RobustTrace.cfg')
        os.unlink(f)
        rs = list(pipe.results(o))
        if len(rs) != len(part):
            raise pipe.Error('TLC judged %d of %d sessions' % (len(rs), len(part)))
        return [part[t - 1][:2] + (bad, n, part[t - 1][2]) for t, bad, n in rs], st

    out, states, trans = [], 0, 0
    with cf.ThreadPoolExecutor(pipe.JOBS) as ex:
        for o, st in ex.map(job, parts):
            out += o
            states += st[1]
            trans += st[0]
    return out, (trans, states)
