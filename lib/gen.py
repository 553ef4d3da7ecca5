"""Documents for the conformance runs: random ones, mostly well-formed, of
which profiles stress one part of the language each, and mutations of them.
Nothing here knows what is right: the specification judges every document."""
import random, re

EDGE = [0x09, 0x0A, 0x0D, 0x20, 0x21, 0x7E, 0x7F, 0x80, 0x85, 0xA0, 0xB7, 0xD7, 0xE9, 0xFF, 0x100, 0x2FF,
        0x300, 0x36F, 0x370, 0x37E, 0x7FF, 0x800, 0x2028, 0x203F, 0x2070, 0x3042, 0x4E2D, 0xD7FF, 0xE000,
        0xF8FF, 0xFDD0, 0xFFFC, 0xFFFD, 0x10000, 0x1F600, 0xEFFFF, 0xF0000, 0x10FFFF]
BADREF = ['&#0;', '&#8;', '&#xB;', '&#x1F;', '&#xD800;', '&#xDFFF;', '&#xFFFE;', '&#xFFFF;', '&#x110000;',
          '&#99999999999;', '&#x;', '&#;', '&#xg;', '&#1a;', '&#65', '&lt', '&', '&;', '& ;', '&#X41;', '&#-5;',
          '&#4294967361;', '&#18446744073709551681;']
SAFE = "abcdefghijklmnopqrstuvwxyzABCXYZ0123456789 .,:;!?()[]{}=+-*/%#@~^_|`$\\"
NAMES = ['a', 'b', 'c', 'd', 'ab', 'abc', 'x', 'root', 'el.em', 'a-b', '_u', 'A', 'n1', 'é', 'ñandú', '中文', 'a·b', 'Ω']
PREFIXES = ['p', 'q', 'r', 'pp', 'ns1', 'x-y', '_p', 'é']
URIS = ['u', 'v', 'http://e.org/', 'http://e.org/ns/1.0', 'urn:a:b', 'http://e.org/?a=b&amp;c=d', 'u#f', 'U', 'http://E.org/']
RESERVED = ['http://www.w3.org/XML/1998/namespace', 'http://www.w3.org/2000/xmlns/', 'http://www.w3.org/xml/1998/namespace', 'http://www.w3.org/XML/1998/Namespace', 'HTTP://www.w3.org/XML/1998/namespace',
            'http://www.w3.org/XML/1998/namespace/', 'http://www.w3.org/XML/1998/namespac', 'http://www.w3.org/2000/xmlns', 'http://www.w3.org/2000/xmlns/#', 'http://www.w3.org/2000/XMLNS/', 'xmlns', 'xml',
            'http://www.w3.org/XML/1998/namespace&#32;', '&#104;ttp://www.w3.org/XML/1998/namespace', 'http://www.w3.org/2000/xmln&#115;/']
ENTN = ['e', 'f', 'g', 'h', 'ent', 'e1', 'e.2', 'é']
TYPES = ['CDATA', 'ID', 'IDREF', 'IDREFS', 'ENTITY', 'ENTITIES', 'NMTOKEN', 'NMTOKENS']

BASE = dict(
    bom=.03, decl=.3, misc=.3, doctype=.35, ndecl=5, depth=4, kids=4, size=40,
    text=3., charref=1., entref=.6, cdata=.5, comment=.5, pi=.5, elem=2.5, blanks=.7,
    atts=.5, natts=3, nsdecl=.3, prefixed=.3, attent=.15, tagblanks=.3, nonascii=.3,
    elemdecl=1., attdecl=1., entdecl=1.2, dtdmisc=.4, pedecl=.2, redecl=.15, names=6, crlf=.2,
    nested=.4, defatts=.5,
)
PROFILES = {
    'all': {},
    'content': dict(doctype=.08, decl=.1, cdata=1., comment=1., pi=1., charref=1.5, atts=.3, nsdecl=.1, prefixed=.1, misc=.6),
    'ns': dict(doctype=.15, nsdecl=.75, prefixed=.7, names=3, depth=6, text=.6, charref=.1, cdata=.1, comment=.2, pi=.1,
               atts=.6, elem=4., attdecl=2., entdecl=.6, elemdecl=.2, decl=.05, kids=3),
    'ent': dict(doctype=1., entdecl=4., elemdecl=.2, attdecl=.5, entref=4., nested=.8, attent=.5, redecl=.35, ndecl=7,
                cdata=.3, comment=.3, pi=.3, decl=.05, nsdecl=.25),
    'dtd': dict(doctype=1., ndecl=9, elemdecl=3., attdecl=2., entdecl=1., dtdmisc=1., pedecl=.4, depth=2, kids=2, decl=.1, redecl=.25),
    'att': dict(doctype=.8, attdecl=5., entdecl=1.2, elemdecl=.2, atts=.9, natts=5, attent=.5, names=3, depth=3, text=.8,
                cdata=.1, comment=.1, pi=.1, nsdecl=.15, prefixed=.2, defatts=.8, ndecl=6, redecl=.3),
    'decl': dict(decl=1., bom=.1, doctype=.1, depth=1, kids=2, misc=.1, nonascii=.6),
    'deep': dict(depth=40, kids=2, elem=6., text=.5, charref=.1, cdata=.1, comment=.1, pi=.1, nsdecl=.5, prefixed=.5,
                 names=3, doctype=.05, size=150, decl=.05),
}


class Gen:
    def __init__(self, seed, profile='all'):
        self.r = random.Random(seed)
        self.w = dict(BASE)
        self.w.update(PROFILES.get(profile, {}))
        self.names = self.r.sample(NAMES, min(len(NAMES), max(2, int(self.w['names'] + self.r.random() * 3))))
        self.ents = []        # declared general entities, safe in content
        self.attents = []     # and in attribute values
        self.attdecls = {}
        self.budget = self.w['size']

    def p(self, k):
        return self.r.random() < self.w[k]

    def pick(self, opts):
        t = sum(w for w, _ in opts)
        x = self.r.random() * t
        for w, v in opts:
            x -= w
            if x < 0:
                return v
        return opts[-1][1]

    def name(self):
        if self.r.random() < .03:
            return self.r.choice(NAMES) + self.r.choice(['1', '-', '.', '_', '\u00b7', 'z'])
        return self.r.choice(self.names)

    def sp(self):
        return self.r.choice([' ', ' ', ' ', '  ', '\n', '\t', ' \n ', '\r\n', '\r'] if self.r.random() < self.w['tagblanks'] else [' '])

    def osp(self):
        return self.sp() if self.r.random() < self.w['tagblanks'] else ''

    def chars(self, n=None, extra='', no=''):
        r = self.r
        out = []
        for _ in range(n if n is not None else r.choice([1, 1, 2, 3, 5, 8, 12])):
            x = r.random()
            if x < .06:
                c = r.choice(['\n', '\t', '\r\n', '\r', '\n\n', ' \r\n\t'])
            elif x < .12:
                c = r.choice('\'"')
            elif x < .2 and extra:
                c = r.choice(extra)
            elif x < .3 and r.random() < self.w['nonascii']:
                u = r.choice([u for u in EDGE if u != 0xFFFD])
                c = chr(u)
            else:
                c = r.choice(SAFE)
            if not any(ch in no for ch in c):
                out.append(c)
        return ''.join(out)

    def charref(self):
        r = self.r
        u = r.choice([r.choice(EDGE), ord(r.choice('<>&"\'ab]')), r.randrange(0x20, 0x7F), 38, 60])
        f = r.choice(['&#%d;', '&#x%x;', '&#x%X;', '&#%05d;', '&#x%06X;'])
        return f % u

    def text(self):
        r = self.r
        t = self.chars(extra=']]>>-?/')
        if r.random() < .8:
            t = t.replace(']]>', ']] >')
        return t

    def comment(self):
        r = self.r
        t = self.chars(r.choice([0, 1, 3, 8]), extra='-<>&]?!')
        if r.random() < .97:
            while '--' in t:
                t = t.replace('--', '-')
            if t.endswith('-'):
                t += ' '
        return '<!--' + t + '-->'

    def pi(self):
        r = self.r
        n = self.name()
        if r.random() < .03:
            n = r.choice(['xml', 'XML', 'xMl', 'xmlx', 'xml-stylesheet', 'a:b'])
        if r.random() < .25:
            return '<?' + n + self.osp() + '?>'
        t = self.chars(r.choice([0, 1, 3, 8]), extra='?<>&]').replace('?>', '? >')
        return '<?' + n + self.sp() + t + '?>'

    def cdata(self):
        t = self.chars(self.r.choice([0, 1, 2, 4, 10]), extra=']]><&<!-?')
        t = t.replace(']]>', ']]')
        return '<![CDATA[' + t + ']]>'

    def attval(self, kind='', forns=False):
        r = self.r
        q = r.choice('"\'')
        if forns:
            t = r.choice(URIS)
            if r.random() < .1:
                t = t.replace('u', '&#117;')
            if r.random() < .05 and self.attents:
                t += '&%s;' % r.choice(self.attents)
            return q + t + q
        out = []
        for _ in range(r.choice([0, 1, 1, 2, 3, 4, 6])):
            x = r.random()
            if x < .45:
                out.append(self.chars(r.choice([1, 2, 4]), extra=' \t\n\r>]', no=q))
            elif x < .6:
                out.append(self.charref())
            elif x < .7:
                out.append('&%s;' % r.choice(['lt', 'gt', 'amp', 'apos', 'quot']))
            elif x < .78:
                out.append(r.choice([' ', '  ', '\t', '\n', '\r\n', '\r', '&#32;', '&#x20;', '&#9;', '&#10;', '&#13;']))
            elif self.attents and r.random() < max(.3, self.w['attent']):
                out.append('&%s;' % r.choice(self.attents))
            else:
                out.append(self.name())
        t = ''.join(out).replace('<', '')
        return q + t.replace(q, '') + q

    def atts(self, en, scope):
        """attributes of a start tag, and the scope inside"""
        r = self.r
        out, seen, inner = [], set(), dict(scope)
        if self.p('nsdecl'):
            for _ in range(r.choice([1, 1, 2, 3])):
                x = r.random()
                if x < .35:
                    n = 'xmlns'
                    v = self.attval(forns=True) if r.random() < .75 else r.choice(['""', "''"])
                    if n in seen:
                        continue
                    inner[''] = v
                else:
                    pre = r.choice(PREFIXES[:4]) if r.random() < .9 else r.choice(PREFIXES)
                    n = 'xmlns:' + pre
                    if n in seen:
                        continue
                    v = self.attval(forns=True)
                    inner[pre] = v
                if r.random() < .03:
                    # the reserved names, and names which are nearly the same
                    n = r.choice(['xmlns:xml', 'xmlns:xml', 'xmlns:zz', 'xmlns', 'xmlns:xmlns', 'xmlns:XML', 'xmlns:xmlx', 'xmlns:xm', 'xmlns:Xmlns'])
                    v = r.choice(RESERVED[:2] if r.random() < .5 else RESERVED + ['', 'u'])
                    v = r.choice('"\'%s\' "%s" "%s"'.split()) % v if r.random() < .9 else '" %s "' % v
                    if n in seen:
                        continue
                seen.add(n)
                out.append((n, v))
        if self.p('atts'):
            known = [a for a in self.attdecls.get(en, []) if not a.startswith('xmlns')]
            for _ in range(r.randint(1, self.w['natts'])):
                n = r.choice(known) if known and r.random() < .6 else self.name()
                pres = [k for k in inner if k]
                if ':' not in n and r.random() < self.w['prefixed'] * .6 and (pres or r.random() < .05):
                    n = (r.choice(pres) if pres else 'zz') + ':' + n
                if r.random() < .02:
                    n = r.choice(['xml:lang', 'xml:space', 'xml:base', 'xml:x'])
                if n in seen and r.random() < .97:
                    continue
                seen.add(n)
                out.append((n, self.attval()))
        r.shuffle(out)
        return ''.join(self.sp() + n + self.osp() + '=' + self.osp() + v for n, v in out), inner

    def element(self, depth, scope, ents):
        r = self.r
        self.budget -= 1
        n = self.name()
        if scope is not None:
            # decided before the attributes are: the prefix may be declared on the element itself
            pass
        base = n
        a, inner = self.atts(n, scope)
        pres = [k for k in inner if k]
        if r.random() < self.w['prefixed'] and pres:
            n = r.choice(pres) + ':' + n
        elif r.random() < .004:
            n = r.choice(['zz:' + n, 'xml:' + n, 'xmlns:' + n, ':' + n, n + ':', 'p:q:' + n])
        if depth <= 0 or self.budget <= 0 or r.random() < .2:
            if r.random() < .5:
                return '<' + n + a + self.osp() + '/>'
            return '<' + n + a + self.osp() + '>' + (self.text() if r.random() < .3 else '') + '</' + n + self.osp() + '>'
        return '<' + n + a + self.osp() + '>' + self.content(depth - 1, inner, ents) + '</' + n + self.osp() + '>'

    def content(self, depth, scope, ents):
        r, w = self.r, self.w
        out = []
        for _ in range(r.randint(0, w['kids'] + 1)):
            k = self.pick([(w['text'], 't'), (w['charref'], 'r'), (w['entref'], 'e'), (w['cdata'], 'd'), (w['comment'], 'c'),
                           (w['pi'], 'p'), (w['elem'], 'E'), (w['blanks'], 'b'), (w['charref'] * .5, 'f')])
            if k == 't':
                out.append(self.text())
            elif k == 'r':
                out.append(self.charref())
            elif k == 'f':
                out.append('&%s;' % r.choice(['lt', 'gt', 'amp', 'apos', 'quot']))
            elif k == 'e':
                if ents:
                    out.append('&%s;' % r.choice(ents))
                elif r.random() < .02:
                    out.append('&zz;')
            elif k == 'd':
                out.append(self.cdata())
            elif k == 'c':
                out.append(self.comment())
            elif k == 'p':
                out.append(self.pi())
            elif k == 'b':
                out.append(r.choice([' ', '\n', '\n  ', '\t', '\r\n', ' \r ']))
            elif self.budget > 0:
                out.append(self.element(depth, scope, ents))
        return ''.join(out)

    # ---- document type
    def model(self, depth):
        r = self.r
        occ = lambda: r.choice(['', '', '', '?', '*', '+'])
        if depth == 0 or r.random() < .35:
            return self.dname() + occ()
        n = r.choice([1, 1, 2, 2, 3, 4])
        sep = r.choice('|,')
        odd = self.oddmodel
        out = self.model(depth - 1)
        for _ in range(n - 1):
            out += self.osp() + (sep if r.random() > odd else '|,'[sep == '|']) + self.osp() + self.model(depth - 1)
        if r.random() < odd / 8:
            out = r.choice([out + sep, sep + out, '', out + ' b', '#PCDATA' + sep + out, out + sep + '#PCDATA', out + sep + '()', out + r.choice('?*+')])
        return '(' + self.osp() + out + self.osp() + ')' + r.choice(['', '', ' '])[:r.random() < odd] + occ()

    def dname(self):
        r = self.r
        n = self.name()
        if r.random() < .12:
            n = r.choice(PREFIXES[:3]) + ':' + n
        return n

    def elementdecl(self):
        r = self.r
        x = r.random()
        if x < .15:
            m = 'EMPTY'
        elif x < .25:
            m = 'ANY'
        elif x < .45:
            k = r.choice([0, 1, 2, 3])
            names = [self.dname() for _ in range(k)]
            m = '(' + self.osp() + '#PCDATA' + ''.join(self.osp() + '|' + self.osp() + n for n in names) + self.osp() + ')'
            m += '*' if names or r.random() < .4 else ''
        else:
            self.oddmodel = 0 if r.random() < .8 else .2
            m = self.model(r.choice([1, 2, 2, 3, 3, 4, 5]))
            if not m.startswith('('):
                m = '(' + m + ')'
        return '<!ELEMENT' + self.sp() + self.dname() + self.sp() + m + self.osp() + '>'

    def attlist(self):
        r = self.r
        en = self.dname()
        out = '<!ATTLIST' + self.sp() + en
        for _ in range(r.choice([0, 1, 1, 1, 2, 3])):
            an = self.dname()
            if r.random() < .08:
                an = r.choice(['xml:lang', 'xml:space', 'xml:id', 'xmlns', 'xmlns:p', 'xmlns:q'])
            ty = r.choice(TYPES)
            if r.random() < .3:
                toks = list(dict.fromkeys(r.choice(['a', 'b', 'c', '1', '-x', 'yes', 'no', 'é', 'a.b']) for _ in range(r.choice([1, 2, 3]))))
                if r.random() < .2:
                    toks = [t for t in toks if t[0].isalpha()] or ['a']
                    ty = 'NOTATION' + self.sp()
                else:
                    ty = ''
                ty += '(' + self.osp() + (self.osp() + '|' + self.osp()).join(toks) + self.osp() + ')'
            x = r.random()
            if an == 'xml:id':
                ty = 'ID'
            if x < .2 and not self.p('defatts'):
                df = '#REQUIRED'
            elif x < .4 and not self.p('defatts'):
                df = '#IMPLIED'
            else:
                v = self.attval(forns=an.startswith('xmlns'))
                df = ('#FIXED' + self.sp() if r.random() < .3 else '') + v
                self.attdecls.setdefault(en, []).append(an)
            if r.random() < .3:
                self.attdecls.setdefault(en, []).append(an)
            out += self.sp() + an + self.sp() + ty + self.sp() + df
        return out + self.osp() + '>'

    def entity(self):
        r = self.r
        if r.random() < .1 * (self.w['pedecl'] > 0):
            n = r.choice(ENTN) if r.random() < .85 else r.choice(['a:b', 'e:', ':e', 'lt', 'xml', '1e', 'e-1', 'p:\u00e9', ''])
            q = r.choice('"\'')
            v = self.chars(3, no='"\'%&') if r.random() < .7 else r.choice(['', "&e;", '&#65;', '&lt;', '<', '<a>', ']]>', '&#37;', '&', '%', '&#0;', '&zz;', '>'])
            return '<!ENTITY' + self.sp() + '%' + (self.sp() if r.random() < .95 else '') + n + (self.sp() if r.random() < .95 else '') + q + v + q + self.osp() + '>'
        fresh = [n for n in ENTN if n not in self.ents]
        n = r.choice(self.ents) if self.ents and r.random() < self.w['redecl'] else r.choice(fresh or ENTN)
        if r.random() < .03:
            n = r.choice(['lt', 'amp', 'gt', 'quot', 'apos', 'a:b', 'e:', ':e', 'p:e', '1e', '-e', '.e', ''])
        q = r.choice('"\'')
        attok = True
        parts = []
        for _ in range(r.choice([0, 1, 1, 2, 3])):
            x = r.random()
            if x < .35:
                parts.append(self.chars(r.choice([1, 2, 4]), no='"\'%&<', extra=']>'))
            elif x < .5:
                parts.append(r.choice(['&#60;', '&#38;', '&#38;#60;', '&#38;#38;', '&lt;', '&amp;', '&gt;', '&#39;', '&#34;', '&#13;', '&#9;', '&#10;', '&#13;&#10;', '&#38;#13;', '&#32;', '&#x3042;']))
            elif x < .65 and self.ents and r.random() < self.w['nested'] * 2:
                ref = r.choice(self.ents if r.random() < .93 else ENTN)
                parts.append('&%s;' % ref)
                if ref not in self.attents:
                    attok = False
            elif x < .85 and r.random() < .7:
                attok = False
                b = self.r.choice([self.comment, self.pi, self.cdata, lambda: self.element(1, {}, self.ents[:])])
                b = b().replace('%', '').replace(q, '"\''[q == '"'] if r.random() < .8 else '')
                if r.random() < .4:
                    # some characters by reference, which the declaration replaces
                    b = ''.join('&#%d;' % ord(c) if r.random() < .15 and c != '&' else c for c in b)
                if r.random() < .3:
                    i = r.randrange(len(b) + 1)
                    b = b[:i] + r.choice(['&#13;', '&#9;', '&#10;', '&#13;&#10;']) + b[i:]
                parts.append(b)
            elif x < .9:
                parts.append(self.name())
            elif x < .92:
                attok = False
                parts.append(r.choice(['<b>', '</b>', '<', '<b', '&zz;', '&e;', '<!--', ']]>', '<![CDATA[', '<a><b></a></b>']))
        v = ''.join(parts).replace(q, '')
        if n not in self.ents:
            self.ents.append(n)
            if attok:
                self.attents.append(n)
        return '<!ENTITY' + self.sp() + n + self.sp() + q + v + q + self.osp() + '>'

    def doctype(self, root):
        r, w = self.r, self.w
        out = '<!DOCTYPE' + self.sp() + root
        if r.random() < .06:
            return out + self.osp() + '>'
        out += self.osp() + '['
        for _ in range(r.randint(0, w['ndecl'])):
            k = self.pick([(w['elemdecl'], 'l'), (w['attdecl'], 'a'), (w['entdecl'], 'e'), (w['dtdmisc'], 'm'), (.4, 'b')])
            out += {'l': self.elementdecl, 'a': self.attlist, 'e': self.entity,
                    'm': lambda: r.choice([self.comment, self.pi])(),
                    'b': lambda: r.choice([' ', '\n', '\t', '\r\n'])}[k]()
            if r.random() < .3:
                out += '\n'
        if r.random() < .004:
            out += r.choice(['%pe;', '<!NOTATION n SYSTEM "x">', 'junk', '<!X>'])
        return out + self.osp() + ']' + self.osp() + '>'

    def xmldecl(self):
        r = self.r
        q = lambda v: (lambda c: c + v + c)(r.choice('"\''))
        out = '<?xml' + self.sp() + 'version' + self.osp() + '=' + self.osp() + q('1.0' if r.random() < .85 else r.choice(['1.1', '1.2', '1.0.1', '1.', '2.0', '', '1', '1.01', 'a', *['1.' + ''.join(r.choice('0123456789') for _ in range(r.choice([1, 2, 3, 4, 8, 30])))] * 4]))
        if r.random() < .5:
            out += self.sp() + 'encoding' + self.osp() + '=' + self.osp() + q(r.choice(['utf-8', 'UTF-8', 'utf8', 'Utf-8']))
        if r.random() < .4:
            out += self.sp() + 'standalone' + self.osp() + '=' + self.osp() + q(r.choice(['yes', 'no']) if r.random() < .95 else r.choice(['Yes', 'maybe', '', 'true']))
        return out + self.osp() + '?>'

    def misc(self):
        out = ''
        while self.p('misc'):
            out += self.r.choice([self.comment, self.pi, lambda: '\n', lambda: self.sp()])()
        return out

    def document(self):
        out = ''
        if self.p('bom'):
            out += '\ufeff'
        if self.p('decl'):
            out += self.xmldecl()
        out += self.misc()
        root = self.name()
        if self.p('doctype'):
            out += self.doctype(root) + self.misc()
        out += self.element(self.w['depth'], {}, self.ents)
        out += self.misc()
        return out


MARK = ['<', '>', '&', ';', '"', "'", '/', '=', '!', '?', '-', ']', '[', ' ', '\n', '#', 'x', '%', ':', '|', ',', '(', ')', '*', '+',
        '--', ']]>', '<!', '</', '/>', '&#', '<?', '?>', '-->', '<![CDATA[', '<!--', '\x00', '\x01', '\x0b', '\ufffe', '\uffff', 'xmlns',
        'xml', 'a', '\u00e9', '<a>', '</a>', '<a/>', '&lt;', '&e;', '\ud7ff', ' a="b"', " xmlns:p='u'"]


NAMED = re.compile(r'(?:</?|<!ELEMENT\s+|<!ATTLIST\s+|<!ENTITY\s+|<!DOCTYPE\s+|\s(?=[^\s<>&=]+=)|&(?!#))([^\s<>/&;=!?"\'%#()]+)')


def rename(r, s):
    """another name at one place: one of the document, or with another prefix"""
    ms = list(NAMED.finditer(s))
    if not ms:
        return s
    ends = [m for m in ms if m.group(0).startswith('</')]
    m = r.choice(ends if ends and r.random() < .45 else ms)
    n = m.group(1)
    local = n[n.rfind(':') + 1:]
    pres = [x.group(1)[6:] for x in ms if x.group(1).startswith('xmlns:')] + [x.group(1)[:x.group(1).index(':')] for x in ms if ':' in x.group(1)]
    new = r.choice([local, r.choice(pres or ['p']) + ':' + local, r.choice(pres or ['p']) + ':' + local, r.choice(ms).group(1), n + r.choice('xa:1'), n[:-1] or 'x', n.swapcase()])
    return s[:m.start(1)] + new + s[m.end(1):]


def mutate(r, s, n=1):
    """n small changes to a document"""
    for _ in range(n):
        if not s:
            return r.choice(MARK)
        if r.random() < .2:
            s = rename(r, s)
            continue
        k = r.random()
        # prefer places near markup
        i = r.randrange(len(s))
        for _ in range(4):
            if s[i] in '<>&;="\'/![]?-()|,:# \n':
                break
            i = r.randrange(len(s))
        if k < .22:
            s = s[:i] + s[i + 1:]
        elif k < .47:
            s = s[:i] + r.choice(MARK) + s[i:]
        elif k < .65:
            s = s[:i] + r.choice(MARK) + s[i + 1:]
        elif k < .73:
            s = s[:i]
        elif k < .8:
            j = min(len(s), i + r.randint(1, 12))
            s = s[:j] + s[i:j] + s[j:]
        elif k < .87:
            j = min(len(s), i + r.randint(1, 15))
            s = s[:i] + s[j:]
        elif k < .93:
            j = r.randrange(len(s))
            a, b = min(i, j), max(i, j)
            c = min(len(s), b + r.randint(1, 8))
            s = s[:a] + s[b:c] + s[a:b] + s[c:]
        elif k < .955:
            s = s[:i] + r.choice(BADREF) + s[i:]
        elif k < .97:
            s = s[:i] + s[i].swapcase() + s[i + 1:]
        else:
            # another one of its kind
            js = [j for j, c in enumerate(s) if c in '|,?*+"\'()#%' or '0' <= c <= '9']
            j = r.choice(js or [i])
            k = [c for c in ('|,', '?*+', '"\'', '()', '#%&', '0123456789') if s[j] in c] or [' ']
            s = s[:j] + r.choice(k[0]) + s[j + 1:]
    return s


def enc(s):
    return s.encode('utf-8', 'surrogatepass')


def documents(seed, profile, n, mut=.4):
    """n documents as bytes"""
    r = random.Random('%s/%s' % (seed, profile))
    out = []
    while len(out) < n:
        g = Gen(r.random(), profile)
        s = g.document()
        if len(s) > 6000:
            continue
        x = r.random()
        if x < mut:
            s = mutate(r, s, r.choice([1, 1, 1, 2, 3]))
        b = enc(s)
        if x < .01 * (mut > 0):
            i = r.randrange(len(b) + 1)
            b = b[:i] + bytes([r.randrange(256)]) + b[i + 1:]
        out.append(b)
    return out


# ---- every class of characters at every place

RANGES = [(0x9, 0xA), (0xD, 0xD), (0x20, 0xD7FF), (0xE000, 0xFFFD), (0x10000, 0x10FFFF), (0x3A, 0x3A), (0x41, 0x5A), (0x5F, 0x5F), (0x61, 0x7A),
          (0xC0, 0xD6), (0xD8, 0xF6), (0xF8, 0x2FF), (0x370, 0x37D), (0x37F, 0x1FFF), (0x200C, 0x200D), (0x2070, 0x218F), (0x2C00, 0x2FEF),
          (0x3001, 0xD7FF), (0xF900, 0xFDCF), (0xFDF0, 0xFFFD), (0x10000, 0xEFFFF), (0x2D, 0x2E), (0x30, 0x39), (0xB7, 0xB7), (0x300, 0x36F),
          (0x203F, 0x2040), (0x85, 0x85), (0xA0, 0xA0), (0x2028, 0x2029), (0xFEFF, 0xFEFF), (0x1FFFE, 0x20000), (0x7F, 0x9F), (0x180E, 0x180E), (0x3000, 0x3000)]
BOUNDS = sorted({c + d for lo, hi in RANGES for c in (lo, hi) for d in (-1, 0, 1) if 0 <= c + d <= 0x10FFFF} | set(range(0, 128)) - {0xFFFD})
PLACES = {
    'text': '<a>x%sy</a>', 'textonly': '<a>%s</a>', 'name': '<x%sy/>', 'start': '<%sx/>', 'only': '<%s/>', 'end': '<x></x%s>', 'attname': '<a x%sy="1"/>', 'attstart': '<a %sx="1"/>',
    'local': '<a xmlns:p="u" p:%sx="1"/>', 'prefix': '<a xmlns:%sp="u"/>', 'attval': '<a x="1%s2"/>', 'comment': '<a><!--x%sy--></a>', 'pi': '<a><?p x%sy?></a>', 'target': '<a><?p%sx y?></a>',
    'tstart': '<a><?%sp y?></a>', 'cdata': '<a><![CDATA[x%sy]]></a>', 'entname': '<!DOCTYPE a [<!ENTITY e%sf "v">]><a>&e%sf;</a>', 'entval': '<!DOCTYPE a [<!ENTITY e "x%sy">]><a>&e;</a>',
    'nmtoken': '<!DOCTYPE a [<!ATTLIST a x (%s|c) #IMPLIED>]><a/>', 'elname': '<!DOCTYPE a [<!ELEMENT a%sb (c%sd)>]><a/>', 'doctype': '<!DOCTYPE a%sb><a/>', 'prolog': '%s<a/>', 'epilog': '<a/>%s',
    'intag': '<a %s/>', 'aftername': '<a%s/>', 'default': '<!DOCTYPE a [<!ATTLIST a x CDATA "1%s2">]><a/>', 'subset': '<!DOCTYPE a [%s]><a/>',
}
REFPLACES = {'text': '<a>%s</a>', 'att': '<a x="1%s2"/>', 'ent': '<!DOCTYPE a [<!ENTITY e "%s">]><a>&e;</a>', 'default': '<!DOCTYPE a [<!ATTLIST a x NMTOKENS "%s">]><a/>'}


def charsweep(seed, n):
    """n of the documents with one character (or reference) of each class in each place"""
    r = random.Random('%s/chars' % seed)
    out = []
    for p in PLACES.values():
        for c in BOUNDS:
            if c != 0xFFFD:
                out.append(p.replace('%s', chr(c)))
    for p in REFPLACES.values():
        for c in BOUNDS:
            out.append(p.replace('%s', r.choice(['&#%d;', '&#x%x;', '&#x%X;', '&#x0%x;', '&#0%d;']) % c))
        for b in BADREF:
            out.append(p.replace('%s', b))
    # and in the replacement text of an entity
    for k, p in PLACES.items():
        if not p.startswith('<!') and k not in ('prolog', 'epilog'):
            for c in BOUNDS:
                out.append('<!DOCTYPE a [<!ENTITY e "%s">]><a>&e;</a>' % p.replace('"', "'").replace('%s', '&#%d;' % c))
    r.shuffle(out)
    return [enc(s) for s in out[:n]]


# ---- documents beyond the size of buffers

def word(r, n, alphabet='abcdefghijklmnopqrstuvwxyz0123456789'):
    return ''.join(r.choice(alphabet) for _ in range(n))


def bigdoc(r, size):
    """a document of roughly that many bytes, dominated by one kind of token"""
    fill = lambda k: ''.join(r.choice(['a', 'b', ' ', '\n', 'é', '中', '.', ',', 'xyz', '\U0001F600', '\r\n', '>', "'"]) for _ in range(k))
    k = r.randrange(16)
    pad = 'p' * r.randrange(0, 70)
    if k == 0:
        return '<a>%s%s</a>' % (pad, fill(size // 2))
    if k == 1:
        return '<a>%s<!--%s--><b/></a>' % (pad, fill(size // 2))
    if k == 2:
        return '<a>%s<?p %s?><b/></a>' % (pad, fill(size // 2))
    if k == 3:
        return '<a>%s<![CDATA[%s]]><b/></a>' % (pad, fill(size // 2).replace(']]>', ''))
    if k == 4:
        return '<a x="%s" y=\'%s\'>%s</a>' % (fill(size // 4), fill(size // 4).replace("'", '"').replace('<', ''), pad)
    if k == 5:
        n = word(r, min(size // 2, 2000))
        return '<%s a%s="1">%s</%s>' % ('a' + n, n, pad, 'a' + n)
    if k == 6:
        return '<a>' + ''.join('<b%d x="%d">%s</b%d>' % (i, i, word(r, r.randrange(9)), i) for i in range(size // 24)) + '</a>'
    if k == 7:
        return '<a ' + ' '.join('x%d="%s"' % (i, word(r, 3)) for i in range(min(size // 12, 130))) + '/>'
    if k == 8:
        n = min(size // 20, 80)
        return '<a ' + ' '.join('xmlns:n%d="u%d"' % (i, i) for i in range(n)) + '>' + ''.join('<n%d:b n%d:x="1"/>' % (r.randrange(n), r.randrange(n)) for _ in range(10)) + '</a>'
    if k == 9:
        n = size // 9
        return ''.join('<e%d>' % i for i in range(n)) + pad + ''.join('</e%d>' % i for i in reversed(range(n)))
    if k == 10:
        # scopes that open and close, deep enough for the stacks to shrink
        n = min(size // 40, 120)
        s = ''.join('<e xmlns:n%d="u%d" xmlns="d%d">' % (i % 7, i, i) for i in range(n))
        c = ''
        for i in reversed(range(n)):
            c += '</e>'
            if r.random() < .5:
                c += '<n%d:x/>' % (r.randrange(7)) if i > 8 else '<y/>'
        if c.endswith('/>'):
            c = c[:c.rindex('<')]
        return s + c
    if k == 11:
        return '<!DOCTYPE a [' + ''.join('<!ENTITY e%d "%s">' % (i, word(r, 9)) for i in range(size // 25)) + ']><a>' + ''.join('&e%d;' % r.randrange(max(1, size // 25)) for _ in range(20)) + '</a>'
    if k == 12:
        return '<!DOCTYPE a [<!ELEMENT a (' + r.choice('|,').join('e%d' % i for i in range(min(size // 5, 160))) + ')>' + '<!ATTLIST a ' + ' '.join('x%d CDATA "%s"' % (i, word(r, 3)) for i in range(min(size // 40, 50))) + '>]><a/>'
    if k == 13:
        return '<!DOCTYPE a [<!ENTITY e "%s">]><a>%s&e;&e;<b x="&e;"/></a>' % (fill(size // 4).replace('%', ''), pad)
    if k == 14:
        return '<a>%s' % pad + '&#x%x;&lt;t' % r.choice([65, 0x4e2d, 0x10ffff]) * (size // 14) + '</a>'
    return '<a>' + ''.join(r.choice(['<b/>', '<!--c-->', '<?p?>', '<![CDATA[x]]>', 't', '&lt;', '\n', '<c>t</c>']) for _ in range(size // 6)) + '</a>'


def bigdocs(seed, n, maxsize=9000):
    r = random.Random('%s/big' % seed)
    out = []
    for i in range(n):
        size = r.choice([300, 500, 1000, 1020, 2040, 4090, 8180]) + r.randrange(40)
        s = bigdoc(r, min(size, maxsize))
        if r.random() < .12:
            s = mutate(r, s, 1)
        out.append(enc(s))
    return out


# ---- documents in which one thing comes many times, or is long

COUNTS = [*range(1, 24)] * 4 + [*range(24, 72)] * 2 + [*range(72, 140)] + [127, 128, 129, 199, 200, 201, 254, 255, 256, 257, 258]


class Many:
    def __init__(self, r):
        self.r = r
        self.ents, self.defs, self.enums = [], [], []
        self.dtd, self.before, self.after, self.atts, self.body = [], [], [], [], []
        self.seen = set()

    def k(self, most=258):
        k = self.r.choice(COUNTS)
        return k if k <= most else 1 + self.r.randrange(most)

    def fill(self, k, no=''):
        r = self.r
        x = r.random()
        al = [c for c in ('a', 'b', ' ', '\n', '\t', 'é', '中', '.', '\U0001F600', '\r\n', '\r', '>', "'", ']', '-', '?', ';', '%', '"') if not set(c) & set(no)]
        if x < .25:
            al = [r.choice(al)]
        elif x < .5:
            al = [r.choice(al), r.choice(al)]
        return ''.join(r.choice(al) for _ in range(k))

    def name(self, long=.15):
        r = self.r
        n = r.choice('abcdefgz')
        if r.random() < long:
            n += ''.join(r.choice('ab1.-_é') for _ in range(self.k(140)))
        return n

    def fresh(self, long=.1):
        while True:
            n = self.name(long) + str(self.r.randrange(1000))
            if n not in self.seen:
                self.seen.add(n)
                return n

    def sp(self):
        r = self.r
        return r.choice(' \n\t\r') * self.k(70) if r.random() < .04 else r.choice([' ', ' ', '\n'])

    def sep(self, s):
        return '' if s and self.r.random() < .5 else self.sp()

    def ref(self):
        r = self.r
        u = r.choice([65, 66, 233, 0x4e2d, 0x10ffff, 32, 60, 38, 10])
        return r.choice(['&#%s%d;', '&#x%s%x;']) % ('0' * (self.k(40) if r.random() < .1 else 0), u)

    # what may be many
    def text(self):
        return self.fill(self.k(), '"').replace(']]>', ']] ')

    def comment(self):
        t = self.fill(self.k(), '-')
        return '<!--' + '-'.join([t] + [self.r.choice('ab ') for _ in range(self.k(40) if self.r.random() < .2 else 0)]) + '-->'

    def pi(self):
        return '<?' + self.name() + self.sp() + self.fill(self.k()).replace('?>', '??') + '?>'

    def cdata(self):
        return '<![CDATA[' + self.fill(self.k()).replace(']]>', ']] ') + ('>' if self.r.random() < .1 else '') + ']]>'

    def refs(self):
        r = self.r
        pool = ['&lt;', '&amp;', '&gt;', '&quot;', '&apos;', self.ref(), self.ref()] + ['&%s;' % e for e in r.sample(self.ents, min(3, len(self.ents)))]
        pool = r.sample(pool, r.choice([1, 2, 4, min(7, len(pool))]))
        return ''.join(r.choice(pool) + r.choice(['', '', 'x', ' ']) for _ in range(self.k(70)))

    def elements(self):
        r = self.r
        k = self.k(100)
        x = r.random()
        if x < .3:
            n = [self.name() for _ in range(k)]
            return ''.join('<%s%s>' % (m, ' x="%d"' % i if r.random() < .1 else '') for i, m in enumerate(n)) + r.choice(['', 't', '<!--c-->']) + ''.join('</%s>' % m for m in reversed(n))
        if x < .6:
            return ''.join('<%s/>' % self.name() + r.choice(['', '', 't', '\n', '<?p?>']) for _ in range(k))
        return ''.join('<%s>%s</%s>' % (n, r.choice(['', 't', '&lt;', '<b/>']), n) for n in [self.name() for _ in range(min(k, 60))])

    def value(self):
        r = self.r
        x = r.random()
        q = r.choice('"\'')
        if x < .4:
            v = self.fill(self.k(), '"\'')
        elif x < .7:
            v = self.refs()
        else:
            v = ''.join(r.choice(['a', 'bc', '1', 'x-y']) + ' ' * r.choice([0, 1, 1, 2, self.k(20)]) for _ in range(self.k(60)))
        return q + v.replace(q, '') + q

    def attlist(self):
        r = self.r
        el = 'r' if r.random() < .7 else self.name()
        if r.random() < .5:
            x = r.random()
            k = self.k(60)
            names = [self.fresh() for _ in range(k)]
            tys = r.sample(['CDATA', 'NMTOKEN', 'NMTOKENS', 'IDREF', '(a|b)', 'ENTITIES'], 2)
            one = lambda n: n + self.sp() + r.choice(tys) + ' ' + r.choice(['#IMPLIED', '"a"', '"a"', '#FIXED "b"', '#REQUIRED'])
            if el == 'r':
                self.defs += names
            if x < .5:
                self.dtd.append('<!ATTLIST %s %s>' % (el, self.sp().join(map(one, names))))
            else:
                self.dtd += ['<!ATTLIST %s %s>' % (el, one(n)) for n in names]
        else:
            n = self.fresh()
            toks = []
            for i in range(self.k(80)):
                toks.append(self.name(.05) + str(i))
            self.dtd.append('<!ATTLIST %s %s (%s) %s>' % (el, n, ''.join(self.sep(t) + t + self.sep(t) + '|' for t in toks)[:-1], r.choice(['#IMPLIED', '"%s"' % r.choice(toks), '#FIXED "%s"' % toks[-1]])))
            if el == 'r' and r.random() < .5:
                self.defs.append(n)

    def model(self):
        r = self.r
        x = r.random()
        occ = lambda: r.choice(['', '', '?', '*', '+'])
        k = self.k(100)
        if x < .5:
            c = r.choice('|,')
            m = '(' + c.join(self.sep(1) + self.name(.05) + occ() + self.sep(1) for _ in range(k)) + ')' + occ()
        elif x < .75:
            k = min(k, 60)
            m = 'b' + occ()
            for i in range(k):
                y = r.random()
                m = '(' + (m if y < .6 else 'a|' + m if y < .8 else m + ',c') + ')' + occ()
        else:
            m = '(#PCDATA' + ''.join(self.sep(1) + '|' + self.sep(1) + self.name(.05) + str(i) for i in range(k)) + ')*'
        self.dtd.append('<!ELEMENT %s %s>' % (self.fresh(), m))

    def entities(self):
        r = self.r
        x = r.random()
        q = r.choice('"\'')
        if x < .3:       # a chain
            last = self.fresh()
            self.dtd.append('<!ENTITY %s %s%s%s>' % (last, q, r.choice(['', 't', '&#38;lt;']), q))
            for _ in range(self.k(36)):
                n = self.fresh(.03)
                self.dtd.append('<!ENTITY %s %s%s&%s;%s%s>' % (n, q, r.choice(['', 'x']), last, r.choice(['', 'y']), q))
                last = n
            self.ents.append(last)
        elif x < .6:     # many
            for _ in range(self.k(60)):
                n = self.fresh(.03)
                self.dtd.append('<!ENTITY %s %s%s%s>' % (n, q, r.choice(['', 'v', n, '&#65;', '&lt;']), q))
                self.ents.append(n)
        else:            # a long one
            n = self.fresh()
            v = self.fill(self.k(), '%&"\'') if r.random() < .5 else self.refs()
            self.dtd.append('<!ENTITY %s %s%s%s>' % (n, q, v, q))
            self.ents.append(n)

    def namespaces(self):
        r = self.r
        k = self.k(60)
        ps = [self.fresh() for _ in range(k)]
        us = ['u' + word(r, r.choice([1, 2, 5, self.k(140)])) for _ in ps]
        x = r.random()
        use = lambda p: r.choice(['<%s:a/>', '<b %s:x="1"/>', '<%s:c xmlns="w"><d/></%s:c>']).replace('%s', p)
        if x < .5:
            return '<a ' + self.sp().join('xmlns:%s="%s"' % pu for pu in zip(ps, us)) + '>' + ''.join(use(r.choice(ps)) for _ in range(r.choice([1, 3, 9]))) + '</a>'
        s = e = ''
        pool = ps[:r.choice([1, 2, 5, 60])]
        for i, u in enumerate(us):
            p = r.choice(pool + [''])
            s += '<n xmlns%s="%s">' % (':' + p if p else '', u + str(i))
            e += '</n>'
        known = [p for p in pool if 'xmlns:%s=' % p in s]
        mid = ''.join(use(r.choice(known)) for _ in range(3)) if known else '<m/>'
        return s + mid + e

    def document(self):
        r = self.r
        for _ in range(r.choice([1, 1, 2, 3])):
            x = r.random()
            if x < .1:
                self.attlist()
            elif x < .2:
                self.model()
            elif x < .32:
                self.entities()
            elif x < .37:
                (self.before if r.random() < .4 else self.dtd if r.random() < .5 else self.after).extend(
                    r.choice(['<!--%d-->', '<?p %d?>', '\n']).replace('%d', str(i)) for i in range(self.k(60)))
            elif x < .42:
                (self.before if r.random() < .4 else self.dtd if r.random() < .5 else self.after).append(r.choice([self.comment, self.pi, lambda: self.sp() * 3])())
            elif x < .52:
                for _ in range(self.k(70)):
                    self.atts.append((self.fresh(.03), '"%s"' % r.choice(['', 'a', ' b ', '&lt;'])))
            elif x < .6:
                self.atts.append((self.fresh(), self.value()))
            elif x < .67:
                self.body.append(self.namespaces())
            else:
                self.body.append(r.choice([self.text, self.comment, self.pi, self.cdata, self.refs, self.elements, self.elements])())
        for n in self.defs:
            if r.random() < .2:
                self.atts.append((n, self.value() if r.random() < .2 else r.choice(['"a"', '" b  c "', "'b'"])))
        if self.ents and not self.body or r.random() < .2:
            self.body.append(self.refs())
            if self.ents and r.random() < .5:
                self.atts.append((self.fresh(), self.value()))
        r.shuffle(self.atts)
        n = 'r'
        out = ''
        if r.random() < .1:
            out += '<?xml version%s=%s"1.0"%sencoding="utf-8"%s?>' % (self.sep(1), self.sep(1), self.sp(), self.sep(1))
        out += ''.join(self.before)
        if self.dtd:
            out += '<!DOCTYPE%s%s%s[%s]%s>' % (self.sp(), self.name(), self.sep(1), self.sep(1).join(self.dtd), self.sep(1))
        out += '<r' + ''.join(self.sp() + n + self.sep(1) + '=' + self.sep(1) + v for n, v in self.atts)
        b = ''.join(self.body)
        out += self.sep(1) + ('/>' if not b and r.random() < .5 else '>' + b + '</r' + self.sep(1) + '>')
        return out + ''.join(self.after)


def many(seed, n, mut=.1):
    r = random.Random('%s/many' % seed)
    out = []
    while len(out) < n:
        s = Many(random.Random(r.random())).document()
        if len(s) > 6000:
            continue
        if r.random() < mut:
            s = mutate(r, s, 1)
        out.append(enc(s))
    return out


# ---- documents in other encodings

def tables():
    """name -> (kind, characters with their bytes, switches)"""
    import os, sys
    sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'tools'))
    import gen_encodings as g
    t = {}
    for n, up in g.table().items():
        t[n] = ('byte', {chr(u): bytes([128 + i]) for i, u in enumerate(up) if u}, None)
    for n, ps in g.PAIRS.items():
        t[n] = ('pair', {chr(u): bytes(k) for k, u in ps.items()}, None)
    for n, (ps, on, off) in g.SHIFT.items():
        t[n] = ('shift', {chr(u): bytes(k) for k, u in ps.items()}, (bytes(on), bytes(off)))
    return t


def encode(s, table):
    kind, chars, sw = table
    out, on = [], False
    for c in s:
        if ord(c) < 128:
            if on:
                out.append(sw[1])
                on = False
            out.append(b'-' if sw and ord(c) in (sw[0][0], 27) else c.encode())
        elif c in chars:
            if sw and not on:
                out.append(sw[0])
                on = True
            out.append(chars[c])
        else:
            if on:
                out.append(sw[1])
                on = False
            out.append(b'?')
    if on:
        out.append(sw[1])
    return b''.join(out)


def recase(r, s):
    return r.choice([s, s.upper(), s.capitalize(), ''.join(r.choice([c, c.upper()]) for c in s)])


def encdocs(seed, n, mut=.15):
    """documents in all the supported encodings"""
    r = random.Random('%s/enc' % seed)
    ts = tables()
    names = sorted(ts)
    out = []

    def decl(name):
        q = lambda v: (lambda c: c + v + c)(r.choice('"\''))
        sp = r.choice([' ', ' ', '\n', '  '])
        return '<?xml version=%s%sencoding%s%s%s%s?>' % (q('1.0'), sp, r.choice(['=', ' = ']), q(recase(r, name)), r.choice(['', '', ' standalone="yes"', " standalone='no'"]), r.choice(['', ' ']))

    # every character of the repertoires, in text, values, comments and (where it may be) names
    for name in names:
        cs = sorted(ts[name][1])
        w = lambda p: encode(decl(name) + p, ts[name])
        out.append(w('<a>' + ''.join(cs) + '</a>'))
        out.append(w('<a x="%s"><!--%s--><?p %s?><![CDATA[%s]]></a>' % ((''.join(cs),) * 4)))
        al = [c for c in cs if c.isalpha() and ord(c) not in (0xAA, 0xB5, 0xBA)]
        out.append(w('<r>' + ''.join('<%s/><x%s %s="%s">%s</x%s>' % (c, c, c, c, c, c) for c in al) + '</r>'))
        out.append(w('<!DOCTYPE a [<!ENTITY e "%s"><!ATTLIST a x CDATA "%s">]><a>&e;</a>' % (''.join(cs), ''.join(cs))))
        # characters the encoding does not have
        out.append(w('<a x="&#x3042;&#xe9;&#x416;&#x5d0;">&#x20AC;&#x1F600;&#x4e2d;&#xac00;&#233;<b/></a>'))
    while len(out) < n:
        name = r.choice(names)
        kind, chars, sw = ts[name]
        cs = sorted(chars)
        letters = [c for c in cs if c.isalpha() and ord(c) not in (0xAA, 0xB5, 0xBA)] or ['x']
        if r.random() < .25:
            s = bigdoc(r, r.choice([300, 1000, 2040, 4090]) + r.randrange(40))
        else:
            g = Gen(r.random(), r.choice(['all', 'content', 'att', 'ent', 'dtd', 'ns', 'decl']))
            g.w.update(decl=0, bom=0, nonascii=.8)
            s = g.document()
            if len(s) > 5000:
                continue
        if r.random() < mut:
            s = mutate(r, s)
        m = {}
        t = []
        for c in s:
            if ord(c) >= 128:
                if c not in m:
                    m[c] = c if c in chars and r.random() < .7 else r.choice(letters) if c.isalnum() else r.choice(cs)
                c = m[c]
            t.append(c)
        out.append(encode(decl(name) + ''.join(t), ts[name]))
    return out


# ---- every single edit of a few documents which have something of everything

RICH = {
    'content': '<r><a x="1" y=\'2\'>t&lt;&#65;&#x42;<!--c--><?p d?><![CDATA[x]]>]</a ><b/>\n</r>',
    'ns': '<p:r xmlns:p="u" xmlns="v" p:x="1"><a xmlns=""><p:b y="2"/></a><q:c xmlns:q=\'w\'></q:c></p:r>',
    'dtd': '<!DOCTYPE r [<!ELEMENT r (a,(b|c)*,d?)+><!ELEMENT a (#PCDATA|b)*><!ELEMENT b EMPTY ><!--c--><?p d?>\n<!ELEMENT c ANY>]><r/>',
    'model': '<!DOCTYPE r [<!ELEMENT r ((a|(b,((c|d|e),f))*),(g,h+)?)><!ELEMENT a ( ( b ) )*>]><r/>',
    'mixed': '<!DOCTYPE r [<!ELEMENT r (#PCDATA|p:a)*><!ELEMENT a (b)><!ENTITY e " <p:a> </p:a> "><!ELEMENT p:a ANY>]><r xmlns:p="u"> <p:a> </p:a>&e; <a> <b/>\n</a> </r>',
    'res': '<r xmlns:xml="http://www.w3.org/XML/1998/namespace" xmlns:q="http://www.w3.org/2000/xmlns/x" xml:space="preserve"/>',
    'att': '<!DOCTYPE r [<!ATTLIST r x CDATA "a" y (b|c) #IMPLIED z ID #REQUIRED><!ATTLIST r w NMTOKENS #FIXED \' d  e \' >]><r x="1"/>',
    'ent': '<!DOCTYPE r [<!ENTITY e "v&#65;"><!ENTITY f \'<a>&e;&lt;</a>\'><!ENTITY % g "h">]><r x="&e;">&f;&amp;</r>',
    'decl': '<?xml version="1.0" encoding="utf-8" standalone=\'yes\'?><r/>',
    'decl2': '<?xml version = \'1.0\' standalone = "no" ?>\n<r>\u00e9</r>',
    'misc': '<?xml version="1.0"?><!--a--><?p q?>\n<!DOCTYPE r []>\n<!----><r/> <?p?>\n<!--b-->\n',
}
INS = ['\x00', '\t', '\n', '\r', '\x1f', '\x7f', '\u0085', '\u00a0', '\u00b7', '\u00e9', '\u0301', '\u3000', '\ud800', '\ufeff', '\ufffe', '\U0001f600', 'a', 'x', 'Z', '0', '1', '_'] + list(' !"#$%&\'()*+,-./:;<=>?@[\\]^`{|}~') \
    + ['--', '  ', '&a;', '&lt;', '<a>', '</r>', 'xml', ']]>', '<!', '/>', '&#0;']


def neighbours(seed, n, kinds=None):
    r = random.Random('%s/near' % seed)
    out = []
    for k, s in RICH.items():
        if kinds and k not in kinds:
            continue
        out.append(s)
        for i in range(len(s) + 1):
            out.append(s[:i])
            for c in INS:
                out.append(s[:i] + c + s[i:])
                out.append(s[:i] + c + s[i + 1:])
            for j in (1, 2, 3, 4):
                out.append(s[:i] + s[i + j:])
                out.append(s[:i + j] + s[i:])
            out.append(s[:i] + s[i + 1:i + 2] + s[i:i + 1] + s[i + 2:])
            out.append(s[:i] + s[i:i + 1].swapcase() + s[i + 1:])
    out = list(dict.fromkeys(out))
    r.shuffle(out)
    return [enc(s) for s in out[:n]]
