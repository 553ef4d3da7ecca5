"""The tools of the checks: building the driver from the working tree of
/repo, running it, and running TLC. Trouble with a tool is an Error, which
ends a check without a verdict."""
import random, base64, concurrent.futures as cf, glob, json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
JARS = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
JOBS = min(8, os.cpu_count() or 4)


class Error(Exception):
    pass


def goenv():
    e = dict(os.environ)
    for k in ('HELIUM_DUMP_TEST_FILES', 'GOROOT', 'GOBIN'):
        e.pop(k, None)
    e.update(HOME=e.get('HOME', '/root'), PATH='/opt/veriftools/go1.27.3/bin:' + e.get('PATH', '/usr/bin:/bin'),
             GOTOOLCHAIN='local', GOPROXY='off', GOWORK='off', CGO_ENABLED='0', GOFLAGS='-mod=mod')
    return e


class Scratch:
    """a directory of this run, removed at its end, with the driver in it"""

    def __init__(self):
        self.dir = tempfile.mkdtemp(prefix='vx-')
        self.n = 0

    def __enter__(self):
        return self

    def __exit__(self, *a):
        shutil.rmtree(self.dir, ignore_errors=True)

    def path(self, name):
        return os.path.join(self.dir, name)

    def fresh(self, ext=''):
        self.n += 1
        return self.path('f%d%s' % (self.n, ext))

    def gobuild(self, pkg, out, overlay=None, args=(), cgo='0'):
        mod = self.path('h.mod')
        shutil.copy(os.path.join(VERIF, 'driver/go.mod.txt'), mod)
        shutil.copy(os.path.join(VERIF, 'driver/go.sum.txt'), self.path('h.sum'))
        cmd = ['go', 'build', '-modfile=' + mod] + list(args)
        if overlay:
            ov = self.path('overlay.json')
            with open(ov, 'w') as f:
                json.dump({'Replace': overlay}, f)
            cmd += ['-overlay', ov]
        cmd += ['-o', out, pkg]
        r = subprocess.run(cmd, cwd=REPO, env=dict(goenv(), CGO_ENABLED=cgo), capture_output=True, text=True)
        if r.returncode != 0:
            raise Error('go build %s failed:\n%s' % (pkg, r.stderr[-3000:]))

    def build_race_driver(self):
        """the driver with the race detector, or None where that cannot be built"""
        ov = {REPO + '/internal/vxdrv/' + os.path.basename(f): f for f in glob.glob(VERIF + '/driver/*.go')}
        out = self.path('vxrace')
        try:
            self.gobuild('./internal/vxdrv', out, ov, ['-race'], cgo='1')
        except Error:
            return None
        return out

    def build_driver(self):
        ov = {REPO + '/internal/vxdrv/' + os.path.basename(f): f for f in glob.glob(VERIF + '/driver/*.go')}
        self.driver = self.path('vxdrv')
        self.gobuild('./internal/vxdrv', self.driver, ov)

    # ---- running the real code
    def drive1(self, mode, cases, limit, driver=None):
        """cases: list of JSON objects with an ID; returns the lines of the results by id"""
        res = {}
        todo = cases
        crashes = 0
        while todo:
            fin, fout = self.fresh('.in'), self.fresh('.out')
            with open(fin, 'w') as f:
                for c in todo:
                    f.write(json.dumps(c) + '\n')
            env = goenv()
            env['VX_LIMIT'] = str(limit)
            env['GORACE'] = 'halt_on_error=1 exitcode=66'
            env['GOMAXPROCS'] = env.get('VX_PROCS', '2')
            with open(fout + '.err', 'w') as ef:
                try:
                    p = subprocess.run([driver or self.driver, mode, fin, fout], env=env, stdout=ef, stderr=ef,
                                       timeout=limit * 4 + 60 + len(todo) * .5)
                    rc = p.returncode
                except subprocess.TimeoutExpired:
                    raise Error('the driver does not end')
            started, ended = None, False
            with open(fout, 'rb') as f:
                for line in f:
                    if line.startswith(b'{"start":'):
                        try:
                            started = json.loads(line)['start']
                        except ValueError:
                            pass
                    elif line.startswith(b'{"end":'):
                        ended = True
                    elif len(line) > 1 and line.endswith(b'}\n'):
                        res[started] = line
            err = open(fout + '.err').read()
            for x in (fin, fout, fout + '.err'):
                os.unlink(x)
            if ended:
                break
            if rc == 4 or started is None:
                raise Error('the driver failed: ' + err[-2000:])
            if started not in res:
                # the process died in the middle of a case
                crashes += 1
                m = re.search(r'^(WARNING: DATA RACE|fatal error: .*|panic: .*|runtime: .*)$', err, re.M)
                what = m.group(1) if m else 'exit status %d' % rc
                if rc in (-9, -15):
                    raise Error('the driver was killed')
                res[started] = json.dumps({'id': started, 'crash': what[:300]}).encode() + b'\n'
            ids = [c['ID'] for c in todo]
            todo = todo[ids.index(started) + 1:]
            if crashes > 3:
                break
        return res

    def drive(self, mode, cases, limit=10, driver=None):
        parts = [cases[i::JOBS] for i in range(JOBS)]
        out = {}
        with cf.ThreadPoolExecutor(JOBS) as ex:
            for r in ex.map(lambda p: self.drive1(mode, p, limit, driver), parts):
                out.update(r)
        return out

    # ---- TLC
    def tlc1(self, module, env=None, args=(), workers=1, mem='3g', timeout=800, cfg=None):
        meta = self.fresh('.meta')
        cmd = ['java', '-Xss256m', '-Xmx' + mem, '-XX:+UseParallelGC', '-XX:ParallelGCThreads=2', '-cp', JARS, 'tlc2.TLC',
               '-metadir', meta, '-noGenerateSpecTE', '-workers', str(workers), '-lncheck', 'final']
        if cfg:
            cmd += ['-config', cfg]
        cmd += list(args) + [module]
        e = dict(os.environ)
        e.pop('JAVA_TOOL_OPTIONS', None)
        e.update(env or {})
        try:
            p = subprocess.run(cmd, cwd=os.path.join(VERIF, 'spec'), env=e, capture_output=True, text=True, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise Error('TLC on %s did not end in %d s' % (module, timeout))
        finally:
            shutil.rmtree(meta, ignore_errors=True)
        out = p.stdout
        if 'No error has been found' not in out and not ('-simulate' in args and 'Finished in' in out and 'Error' not in out):
            raise Error('TLC on %s failed:\n%s\n%s' % (module, '\n'.join(l for l in out.splitlines() if not l.startswith(('Parsing', 'Semantic', 'Linting')))[:6000], p.stderr[-2000:]))
        m = re.search(r'(\d+) states generated, (\d+) distinct states found', out)
        stats = (int(m.group(1)), int(m.group(2))) if m else (0, 0)
        return out, stats


TUPLE = re.compile(r'^<<"RES", (.*)>>$', re.M)


JSONRES = re.compile(r'^"RES (\[.*\])"$', re.M)


def results(out):
    for m in JSONRES.finditer(out):
        yield json.loads(json.loads('"' + m.group(1) + '"'))
    for m in TUPLE.finditer(out):
        yield json.loads('[' + m.group(1).replace('TRUE', 'true').replace('FALSE', 'false') + ']')


class Doc:
    """one document, what the code did with it and what the machine says"""
    __slots__ = ('id', 'b', 'line', 'crash', 'verdict', 'bad', 'tokens')

    def __init__(self, id, b):
        self.id, self.b = id, b
        self.line = self.crash = self.verdict = None
        self.bad, self.tokens = '', 0


def validate(sc, docs, want='tdp', limit=10, mem='3g', chunk=2500):
    """Run the code on documents (bytes) and check the traces against the XML
    machine. Returns ([Doc], stats)."""
    ds = [Doc(i, b) for i, b in enumerate(docs)]
    t0 = time.time()
    cases = [{'ID': d.id, 'B': base64.b64encode(d.b).decode(), 'Want': want} for d in ds]
    res = sc.drive('parse', cases, limit)
    good = []
    for d in ds:
        d.line = res.get(d.id)
        if d.line is None:
            d.crash = 'not run'
        elif b'"crash":' in d.line:
            o = json.loads(d.line)
            if 'crash' in o:
                d.crash = o['crash']
        if d.crash == 'not run':
            continue
        if d.crash:   # nothing came out; what should have?
            d.line = json.dumps(dict(b=list(d.b), ok=False, hasdoc=False, ev=[], ok2=False, tree=[], dump=[], dump2=[], derr='', hasdump=False,
                                     hastree=False, haspure=False, pure=[], pureok=False)).encode() + b'\n'
        good.append(d)
    t1 = time.time()
    # balance the work by size
    good.sort(key=lambda d: -len(d.line))
    nchunk = max(1, min(len(good), max(JOBS, (len(good) + chunk - 1) // chunk)))
    parts = [good[i::nchunk] for i in range(nchunk)]
    parts = [p for p in parts if p]

    def job(part):
        f = sc.fresh('.trace')
        with open(f, 'wb') as fh:
            for d in part:
                fh.write(d.line)
        out, stats = sc.tlc1('XmlTrace', {'TRACE': f}, mem=mem)
        os.unlink(f)
        seen = 0
        for i, verdict, bad, n, e, t in results(out):
            d = part[i - 1]
            if d.verdict is None:
                seen += 1
            d.verdict, d.bad, d.tokens = verdict, 'crash' if d.crash else bad, n
        if seen != len(part):
            raise Error('TLC judged %d of %d traces' % (seen, len(part)))
        return stats

    gen = dist = 0
    with cf.ThreadPoolExecutor(JOBS) as ex:
        for g, s in ex.map(job, parts):
            gen += g
            dist += s
    return ds, {'states': dist, 'transitions': gen, 'drive_s': round(t1 - t0, 1), 'tlc_s': round(time.time() - t1, 1)}


DOCLINE = re.compile(r'^"DOC (\[.*\])"$', re.M)


def generate(sc, name, kind, lo, hi, num=0, seed=1, workers=1, timeout=300, limit=None):
    """The documents of XmlGen over an alphabet: all of lo..hi fragments
    (kind 'all'), or limit of the ends of num random walks and their neighbours (kind
    'walk')."""
    import alphabets
    f = sc.fresh('.alpha')
    frags = [x.encode('utf-8', 'surrogatepass') for x in alphabets.fragments(name, kind)]
    pre = alphabets.ALPHABETS[name]['pre'].encode('utf-8', 'surrogatepass')
    with open(f, 'w') as fh:
        json.dump(alphabets.alpha(name, kind, lo, hi), fh)
    args = ['-simulate', 'num=%d' % num, '-depth', str(hi + 1), '-seed', str(seed)] if kind == 'walk' else []
    out, stats = sc.tlc1('XmlGen', {'ALPHA': f}, args=args, workers=workers, timeout=timeout)
    docs = []
    for m in DOCLINE.finditer(out):
        frs, close = json.loads(m.group(1))
        docs.append(pre + b''.join(frags[i - 1] for i in frs) + ''.join(map(chr, close)).encode('utf-8', 'surrogatepass'))
    if not docs:
        raise Error('XmlGen made no documents: ' + out[-2000:])
    docs = list(dict.fromkeys(docs))
    if limit and len(docs) > limit:
        docs = random.Random('%s/pick' % seed).sample(docs, limit)
    return docs, stats
