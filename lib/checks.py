"""What the checks have in common: a run of a check gathers documents, has
them judged, and reports."""
import base64, collections, json, os, random, time
import gen, pipe

VERIF = pipe.VERIF
FINDINGS = os.path.join(VERIF, 'known_findings.json')


class Run:
    def __init__(self, prop, tier, seed, sc):
        self.prop, self.tier, self.seed, self.sc = prop, tier, seed, sc
        self.t0 = time.time()
        self.violations = []      # (what, replay)
        self.known = []
        self.findings = [f for f in json.load(open(FINDINGS)) if f['property'] == prop and f['status'] == 'known']
        self.states = self.transitions = self.traces = self.evaluations = 0
        self.parts = {}
        self.samples = []
        self.nontrivial = set()
        self.assumptions = []

    @property
    def quick(self):
        return self.tier == 'quick'

    def rng(self, what):
        return random.Random('%s/%s/%s' % (self.seed, self.prop, what))

    def log(self, *a):
        print('[%s %5.1fs]' % (self.prop, time.time() - self.t0), *a, flush=True)

    def sample(self, s):
        if len(self.samples) < 6:
            self.samples.append(s)

    def violate(self, what, replay):
        """replay: a JSON object that says how to see it again"""
        self.violations.append((what, replay))

    def count(self, part, **kv):
        p = self.parts.setdefault(part, collections.Counter())
        p.update(kv)

    # ---- documents judged by the XML machine
    def sources(self, plan):
        """documents from a plan: (source, ...) tuples"""
        out = []
        for i, item in enumerate(plan):
            kind, a = item[0], item[1:]
            seed = '%s/%s/%d' % (self.seed, self.prop, i)
            if kind == 'gen':
                docs = gen.documents(seed, a[0], a[1], *(a[2:] or [.4]))
            elif kind == 'chars':
                docs = gen.charsweep(seed, a[0])
            elif kind == 'near':
                docs = gen.neighbours(seed, a[0], a[1:])
            elif kind == 'many':
                docs = gen.many(seed, *a)
            elif kind == 'big':
                docs = gen.bigdocs(seed, a[0])
            elif kind in ('all', 'walk'):
                lo, hi = a[1], a[2]
                num = a[3] if len(a) > 3 else 0
                docs, st = pipe.generate(self.sc, a[0], kind, lo, hi, max(20, num // 3), random.Random(seed).randrange(1 << 30), workers=4,
                                         limit=num or None)
                self.states += st[1]
                self.transitions += st[0]
                self.count('generated by XmlGen', documents=len(docs), states=st[1])
            elif kind == 'enc':
                docs = gen.encdocs(seed, a[0])
            elif kind == 'repo':
                d = os.path.join(pipe.REPO, 'test')
                docs = [open(os.path.join(d, f), 'rb').read() for f in sorted(os.listdir(d)) if f.endswith('.xml')]
                docs = [x for x in docs if len(x) < 20000]
            elif kind == 'docs':
                docs = a[0]
            else:
                raise pipe.Error('no such source ' + kind)
            out += docs
        return list(dict.fromkeys(out))

    def xml(self, plan, relevant, want='tdp'):
        """judge documents; relevant(verdict, bad) says whether a mismatch
        concerns the property"""
        docs = self.sources(plan)
        self.log(len(docs), 'documents')
        ds, st = pipe.validate(self.sc, docs, want, limit=5 if self.quick else 10)
        self.states += st['states']
        self.transitions += st['transitions']
        other = collections.Counter()
        for d in ds:
            if d.verdict is None:
                continue
            self.traces += 1
            self.count('documents', judged=1, **{d.verdict: 1, 'tokens': d.tokens})
            if d.tokens > 2:
                self.nontrivial.add(d.b)
            if not d.bad:
                continue
            if not relevant(d.verdict, d.bad):
                other[d.bad] += 1
                continue
            what = '%s (the specification says %s): %r' % (
                d.crash or d.bad, {'done': 'well-formed', 'err': 'not well-formed', 'unspec': 'unspecified'}[d.verdict], d.b[:120])
            self.violate(what, {'kind': 'document', 'b': base64.b64encode(d.b).decode(), 'verdict': d.verdict, 'mismatch': d.bad, 'crash': d.crash,
                                'trace': None if d.crash or len(d.line) > 200000 else json.loads(d.line)})
        r = self.rng('samples')
        good = [d for d in ds if d.verdict and d.tokens > 3 and len(d.b) < 400]
        for d in r.sample(good, min(4, len(good))):
            self.sample({'document': d.b.decode('utf8', 'replace'), 'verdict': d.verdict, 'tokens': d.tokens, 'mismatch': d.bad})
        if other:
            self.log('mismatches that concern other properties:', dict(other))
        self.log('%d traces validated, %d states' % (len(ds), st['states']))
        return ds

    # ---- the end
    def finish(self, level, rule, exhaustive=False):
        os.makedirs(os.path.join(VERIF, 'evidence', 'replay'), exist_ok=True)
        new = []
        for what, replay in self.violations:
            for f in self.findings:
                if matches(f, replay):
                    if f not in self.known:
                        self.known.append(f)
                    break
            else:
                new.append((what, replay))
        for f in self.known:
            print('KNOWN-FINDING: property=%s %s' % (self.prop, f['text']))
        for i, (what, replay) in enumerate(new[:10]):
            path = os.path.join(VERIF, 'evidence', 'replay', '%s-%d.json' % (self.prop, i + 1))
            with open(path, 'w') as fh:
                json.dump(dict(replay, property=self.prop, what=what), fh)
            print('VIOLATION property=%s replay=%s' % (self.prop, path))
            print('  ' + what[:600])
        if len(new) > 10:
            print('  ... and %d more' % (len(new) - 10))
        cov = dict(states=self.states, transitions=self.transitions, traces_validated_against_impl=self.traces,
                   evaluations=self.evaluations or self.traces, distinct_nontrivial=len(self.nontrivial), rule=rule,
                   samples=self.samples, exhaustive=exhaustive, parts={k: dict(v) for k, v in self.parts.items()})
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level=level, coverage=cov, assumptions=self.assumptions,
                  wall_s=round(time.time() - self.t0, 1), violations=len(new))
        with open(os.path.join(VERIF, 'evidence', self.prop + '.json'), 'w') as fh:
            json.dump(ev, fh, indent=1)
        self.log('states %d, traces %d, %s' % (self.states, self.traces, 'violations: %d' % len(new) if new else 'no violation'))
        return 1 if new else 0


def matches(f, replay):
    m = f.get('match', {})
    return bool(m) and all(replay.get(k) == v for k, v in m.items())
