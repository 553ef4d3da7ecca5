"""Trees for property C07: made with the constructors, serialized, and the
text judged by the XML machine. A tree is the list of its tokens."""
import itertools, json, random, concurrent.futures as cf, os
import pipe
from gen import NAMES, PREFIXES, EDGE

SPECIALS = ['<', '>', '&', '"', "'", '\r', '\n', '\t', ' ', ']', '-', '?', '%', ';', '#', 'a', '\x7f', '\x80', '\x85', '\xa0', '\xdf', '\xe0', 'é',
            '\u0fff', '\u1000', '\u2028', '\ud7ff', '\ue000', '\ufffc', '\ufffd', '\U00010000', '\U0010ffff']
URIS = ['u', 'v', 'http://e.org/', 'urn:a:b', 'http://e.org/?a=b&c=d', 'u#f']


def T(s):
    return [ord(c) for c in s]


class B:
    def __init__(self, r, enc='', edge=None):
        self.r, self.enc = r, enc
        self.latin = enc not in ('', 'utf-8', 'UTF-8')
        self.names = r.sample([n for n in NAMES if not self.latin or n.isascii()], 5)
        self.ents = {}
        self.atts = {}
        # one kind of thing may be many
        self.many = r.choice(['', '', '', '', 'chars', 'at', 'kids', 'depth', 'ents', 'ns', 'misc'])
        if self.many == 'at':
            self.names = self.names[:2] + ['n%d' % i for i in range(self.count(40))]

    def count(self, most=150):
        return self.r.choice([self.r.randint(1, 20), self.r.randint(1, most)])

    def chars(self, n=None, no=(), raw=False):
        """raw: the characters can only be written as they are"""
        r = self.r
        if self.many == 'chars' and n and r.random() < .1:
            n = self.count(300)
        n = r.choice([1, 1, 2, 3, 5, 9, 20]) if n is None else n
        out = []
        for _ in range(n):
            x = r.random()
            if x < .5:
                c = r.choice(SPECIALS)
            elif x < .6:
                c = chr(r.choice(EDGE))
            elif x < .65:
                while True:
                    u = r.choice([r.randrange(0x20, 0x300), r.randrange(0x20, 0xFFFE), r.randrange(0x10000, 0x110000)])
                    if not 0xD800 <= u < 0xE000:
                        break
                c = chr(u)
            else:
                c = r.choice('abcXYZ 019.,=/')
            if raw and (c in '\r\ufffd' or self.latin and not c.isascii()):
                continue
            if self.latin and not (ord(c) < 128 or 0xa0 <= ord(c) < 256):
                continue
            if c not in no:
                out.append(c)
        return ''.join(out)

    def value(self):
        """an attribute's value, references kept, & as &#38;"""
        r = self.r
        out = ''
        for _ in range(r.choice([0, 1, 1, 1, 2, 3]) if self.many != 'chars' or r.random() < .9 else self.count(40)):
            if self.atts and r.random() < .25:
                out += '&%s;' % r.choice(sorted(self.atts))
            else:
                out += self.chars().replace('&', '&#38;')
        return out

    def comment(self):
        t = self.chars(self.r.choice([0, 1, 4, 12]), raw=True)
        while '--' in t:
            t = t.replace('--', '-')
        return {'k': 'co', 't': T(t + 'x' if t.endswith('-') else t)}

    def pi(self):
        t = self.chars(self.r.choice([0, 1, 4, 12]), raw=True).lstrip('\t\n ')
        while '?>' in t:
            t = t.replace('?>', '?')
        return {'k': 'pi', 'n': T(self.r.choice([n for n in self.names if n.lower() != 'xml'])), 't': T(t)}

    def identifiers(self):
        """an external identifier: public (may be missing), system"""
        r = self.r
        pub = ''.join(r.choice("-//W3C DTD XHTML1.0'()+,.:=?;!*#@$_%en") for _ in range(r.choice([0, 0, 0, 1, 5, 20])))
        q = r.choice('"\'')
        s = self.chars(r.choice([1, 2, 5, 20] if not pub else [0, 1, 5, 20]), no=q + '\ufffd', raw=True)
        return {'pi': T(pub), 'si': T(s)}

    def element(self, depth, scope, budget):
        r = self.r
        scope = dict(scope)
        ns = []
        many = ['n%d' % i for i in range(self.count(30))] if self.many == 'ns' and r.random() < .3 else []
        for p in r.sample(PREFIXES[:4] if self.latin else PREFIXES, r.choice([0, 0, 0, 1, 1, 2])) + many + ([''] if r.random() < .15 else []):
            u = r.choice(URIS)
            ns.append([T(p), T(u)])
            scope[p] = u
        p, u = '', scope.get('', '')
        cand = [q for q in scope if q]
        if cand and r.random() < .5:
            p = r.choice(sorted(cand))
            u = scope[p]
        at, used = [], set()
        for n in r.sample(self.names, r.choice([0, 0, 1, 2, 3]) if self.many != 'at' or r.random() < .7 else len(self.names)):
            key = (None, n)
            if cand and r.random() < .3:
                q = r.choice(sorted(cand))
                key = (scope[q], n)
                n = q + ':' + n
            if key in used or n.startswith('xmlns'):
                continue
            used.add(key)
            at.append({'n': T(n), 'v': T(self.value())})
        out = [{'k': 'el', 'l': T(r.choice(self.names)), 'p': T(p), 'u': T(u), 'ns': ns, 'at': at}]
        for _ in range(self.count(60) if self.many == 'kids' and budget[0] > 0 and r.random() < .4 else r.choice([0, 1, 2, 3, 5])):
            budget[0] -= 1
            x = r.random() if self.many != 'depth' or r.random() < .5 else .5
            if x < .35 and out[-1]['k'] != 'tx':
                out.append({'k': 'tx', 't': T(self.chars())})
                if not out[-1]['t']:
                    out.pop()
                    continue
                continue
            if x < .6 and depth > 0 and budget[0] > 0:
                out += self.element(depth - 1, scope, budget)
            elif x < .72:
                out.append(self.comment())
            elif x < .84:
                out.append(self.pi())
            elif self.ents:
                e = r.choice(sorted(self.ents))
                out.append({'k': 'er', 'n': T(e), 't': T(self.ents[e])})
        out.append({'k': '/el'})
        return out

    def tree(self):
        r = self.r
        out = [{'k': 'doc', 'v': T('1.0'), 'e': T(self.enc or 'utf8'), 's': r.choice(['', '', 'yes', 'no'])}]

        def misc():
            for _ in range(self.count(40) if self.many == 'misc' else r.choice([0, 0, 1, 2])):
                out.append(self.comment() if r.random() < .5 else self.pi())
        misc()
        if r.random() < .4:
            out.append({'k': 'dtd', 'n': T(r.choice(self.names))})
            if r.random() < .4:
                ids = self.identifiers()
                out[-1].update(ids if ids['pi'] or ids['si'] else {})
            for n in r.sample(['e', 'f', 'g', 'x', 'e.2'], r.choice([0, 1, 2, 3])) + (['k%d' % i for i in range(self.count(40))] if self.many == 'ents' else []):
                x = r.random()
                if x < .4:     # anything that is text in content
                    t = self.chars(no='<&\ufffd' + ('' if not self.latin else ''), raw=True).replace(']]>', ']]')
                    self.atts[n] = self.ents[n] = t
                elif x < .6:
                    t = r.choice(['<a/>', '<a b="c">t</a>u', "<a b='\"'/>", '<!--c-->', '&amp;', '&lt;x', '&#38;', 'a&gt;b'])
                    self.ents[n] = t
                    if '<' not in t:
                        self.atts[n] = t
                else:
                    t = self.chars(no='\ufffd', raw=True)     # never referred to
                    if '&' in t:
                        t = t.replace('&', '&amp;')
                    if self.enc not in ('', 'utf-8', 'UTF-8'):
                        t = ''.join(c for c in t if c.isascii())
                out.append({'k': 'ent', 'n': T(n), 't': T(t)})
            for n in r.sample(['h', 'i', 'j'], r.choice([0, 0, 1, 2, 3])):
                out.append({'k': 'ent', 'n': T(n), 'ty': r.choice(['par', 'gext', 'gunp', 'pext'])})
                if out[-1]['ty'] == 'par':
                    out[-1]['t'] = T(''.join(c for c in self.chars(no='\ufffd&', raw=True)))
                else:
                    out[-1].update(self.identifiers(), t=T(r.choice(self.names) if out[-1]['ty'] == 'gunp' else ''))
            for n in r.sample(self.names, r.choice([0, 0, 1, 2])):
                out.append({'k': 'eld', 'tx': T('<!ELEMENT %s %s>' % (n, r.choice(['EMPTY', 'ANY', '(#PCDATA)'])))})
            out.append({'k': '/dtd'})
            misc()
        out += self.element(40 if self.many == 'depth' else 4, {}, [60 if self.many in ('depth', 'kids') else 30])
        misc()
        out.append({'k': '/doc'})
        return out


def small(item, enc=''):
    """the tree of a root element with one thing in it"""
    el = {'k': 'el', 'l': T('a'), 'p': [], 'u': [], 'ns': [], 'at': []}
    kids, top, after = [], [], []
    kind, s = item
    if kind == 'tx':
        kids = [{'k': 'tx', 't': T(s)}] if s else []
    elif kind == 'at':
        el['at'] = [{'n': T('b'), 'v': T(s.replace('&', '&#38;'))}]
    elif kind == 'co':
        kids = [{'k': 'co', 't': T(s)}]
        top = [{'k': 'co', 't': T(s)}]
    elif kind == 'pi':
        kids = [{'k': 'pi', 'n': T('t'), 't': T(s)}]
        after = [{'k': 'pi', 'n': T('t'), 't': T(s)}]
    elif kind == 'ent':
        top = [{'k': 'dtd', 'n': T('a')}, {'k': 'ent', 'n': T('e'), 't': T(s)}, {'k': '/dtd'}]
    elif kind == 'name':
        el['l'] = T(s)
        el['at'] = [{'n': T(s), 'v': T('')}]
        kids = [{'k': 'pi', 'n': T(s), 't': []}]
    elif kind == 'ns':
        el.update(p=T('p'), u=T(s), ns=[[T('p'), T(s)]])
    return [{'k': 'doc', 'v': T('1.0'), 'e': T(enc or 'utf8'), 's': ''}] + top + [el] + kids + [{'k': '/el'}] + after + [{'k': '/doc'}]


def legal(kind, s):
    if kind == 'co':
        return '--' not in s and not s.endswith('-') and not set(s) & set('\r\ufffd')
    if kind == 'pi':
        return '?>' not in s and not s[:1].isspace() and not set(s) & set('\r\ufffd')
    if kind == 'ent':
        return '&' not in s and not set(s) & set('\ufffd')
    return True


def exhaustive(n):
    """every text of up to n special characters in every position"""
    out = []
    for kind in ('tx', 'at', 'co', 'pi', 'ent'):
        for k in range(n + 1):
            for s in itertools.product(SPECIALS if k < 3 else SPECIALS[:16], repeat=k):
                s = ''.join(s)
                if legal(kind, s):
                    out.append(small((kind, s)))
    return out


def charsweep(r, num):
    """characters of all of Unicode, eight at a time"""
    cps = [u for u in list(range(0x20, 0x3000)) + [9, 10, 13] + list(range(0x3000, 0x110000, 61)) + EDGE
           if not 0xD800 <= u < 0xE000 and u not in (0xFFFE, 0xFFFF)]
    r.shuffle(cps)
    out = []
    for i in range(0, len(cps), 8):
        if len(out) >= num:
            break
        s = ''.join(map(chr, cps[i:i + 8]))
        kind = r.choice(['tx', 'at', 'co', 'pi', 'ent'])
        if legal(kind, s):
            out.append(small((kind, s)))
    return out


def judge(sc, trees, limit=10):
    cases = [{'ID': i, 'Tree': t} for i, t in enumerate(trees)]
    res = sc.drive('build', cases, limit)
    good, out = [], []
    for c in cases:
        line = res.get(c['ID'])
        if line is None:
            continue
        if b'"crash":' in line and 'crash' in json.loads(line):
            out.append((c, 'done', 'crash: ' + json.loads(line)['crash'], 0, line))
        else:
            good.append((c, line))
    good.sort(key=lambda g: -len(g[1]))
    k = max(1, min(len(good), max(pipe.JOBS, len(good) // 3000)))
    parts = [p for p in (good[i::k] for i in range(k)) if p]

    def job(part):
        f = sc.fresh('.trace')
        with open(f, 'wb') as fh:
            for c, l in part:
                fh.write(l)
        txt, st = sc.tlc1('XmlTrace', {'TRACE': f})
        os.unlink(f)
        r = {x[0]: x[1:] for x in pipe.results(txt)}
        if len(r) != len(part):
            raise pipe.Error('TLC judged %d of %d traces' % (len(r), len(part)))
        return [(part[i - 1][0], v[0], v[1], v[2], part[i - 1][1]) for i, v in r.items()], st

    states = trans = 0
    with cf.ThreadPoolExecutor(pipe.JOBS) as ex:
        for o, st in ex.map(job, parts):
            out += o
            states += st[1]
            trans += st[0]
    return out, (trans, states)


def random_trees(seed, n):
    r = random.Random(seed)
    return [B(r, r.choice(['', '', '', '', '', 'utf-8', 'UTF-8', 'iso-8859-1'])).tree() for _ in range(n)]
