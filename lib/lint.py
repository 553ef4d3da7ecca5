"""helium-lint, run on lists of files; the outcomes are those of the Lint
machine."""
import base64, concurrent.futures as cf, json, os, pty, resource, subprocess, time
import pipe

GOOD = {
    'g1': b'<!DOCTYPE a [<!ENTITY e "x<b/>"><!ATTLIST a d CDATA "v">]>\n<a xmlns:p="u"><p:b>&e;</p:b></a>\n',
    'g2': b'<?xml version="1.0" encoding="iso-8859-1"?><b at="&lt;\xe9">t\xe9<!--c--><?p i?></b>',
    'g3': b'<c/>',
    'big': b'<r>' + b'<x a="1">some text &amp; more</x>\n' * 9000 + b'</r>',
}
BAD = {
    'bad': b'<a><b></a>',
    'leak': b'<a>&e;</a>',               # g1 declares it
    'leak2': b'<p:b/>',
    'empty': b'',
    'cut': b'<a><b>text</b>',
    'deepbad': b'<x>' * 5000,
}
OTHER = ['missing', 'dir', 'loop', 'long', 'notdir']


def outcomes(sc, good, other, n):
    """the outcome of every list of up to n files"""
    f = sc.fresh('.kinds')
    json.dump({'good': good, 'other': other, 'max': n}, open(f, 'w'))
    out, st = sc.tlc1('Lint', {'KINDS': f}, workers=4)
    res = {}
    for l in out.splitlines():
        if l.startswith('"OUT '):
            o = json.loads(json.loads(l)[4:])
            res.setdefault(tuple(o['files']), []).append(o)
    for k, v in res.items():
        if any(x != v[0] for x in v):
            raise pipe.Error('two outcomes of %r' % (k,))
    return {k: v[0] for k, v in res.items()}, st


class Lint:
    def __init__(self, sc):
        self.sc = sc
        self.bin = sc.path('helium-lint')
        sc.gobuild('./cmd/helium-lint', self.bin)
        d = self.dir = sc.path('files')
        os.mkdir(d)
        self.path = {}
        for k, v in list(GOOD.items()) + list(BAD.items()):
            self.path[k] = k + '.xml'
            with open(os.path.join(d, k + '.xml'), 'wb') as f:
                f.write(v)
        os.mkdir(os.path.join(d, 'dir'))
        os.symlink('loop', os.path.join(d, 'loop'))
        self.path.update(missing='missing.xml', dir='dir', loop='loop', long='n' * 300, notdir='g3.xml/x')
        # what the library serializes the good ones to, each on its own
        res = sc.drive('parse', [{'ID': i, 'B': base64.b64encode(GOOD[k]).decode(), 'Want': 'd'} for i, k in enumerate(GOOD)], 60)
        self.dump = {}
        for i, k in enumerate(GOOD):
            o = json.loads(res[i]) if i in res else {}
            if not o.get('ok2') or o.get('derr'):
                self.dump[k] = None
            else:
                self.dump[k] = bytes(o['dump'])

    def run(self, args, stdin=None, out=None, procs=None, nofile=None, timeout=30):
        """(status or None, stdout, stderr)"""
        env = pipe.goenv()
        if procs:
            env['GOMAXPROCS'] = str(procs)
        pre = (lambda: resource.setrlimit(resource.RLIMIT_NOFILE, (nofile, nofile))) if nofile else None
        own = None
        if stdin is None:
            own = stdin = open(os.devnull, 'rb')
        kw = dict(input=stdin) if isinstance(stdin, bytes) else dict(stdin=stdin)
        try:
            p = subprocess.run([self.bin] + args, cwd=self.dir, env=env, stdout=out or subprocess.PIPE, stderr=subprocess.PIPE, preexec_fn=pre,
                               timeout=timeout, **kw)
            return p.returncode, p.stdout, p.stderr
        except subprocess.TimeoutExpired:
            return None, b'', b''
        finally:
            if own:
                own.close()

    def wrong(self, o, r):
        """why the result r is not outcome o"""
        rc, out, err = r
        if rc is None:
            return 'does not end'
        if b'goroutine ' in err and (b'panic:' in err or b'fatal error:' in err):
            return 'crashes'
        if (rc == 0) != (o['status'] == 0):
            return 'exit status %d' % rc
        if o['msg'] and not err.strip():
            return 'no message'
        if any(self.dump[k] is None for k in o['out']):
            return 'a good file is not accepted by the parser'
        if out is not None and out != b''.join(self.dump[k] for k in o['out']):
            return 'standard output'
        return ''


def cases(lint, quick, r):
    """(name, args as kinds, outcome, keywords of run)"""
    sc = lint.sc
    st = [0, 0]

    def outc(good, other, n):
        o, s = outcomes(sc, good, other, n)
        st[0] += s[0]
        st[1] += s[1]
        return o
    res = []
    o3 = outc(['g1', 'g2'], ['bad', 'missing', 'dir'], 3 if quick else 4)
    for k, o in sorted(o3.items()):
        for procs in (1, 2, 8):
            res.append(('files', k, o, dict(procs=procs)))
    o2 = outc(list(GOOD), list(BAD) + OTHER, 2)
    for k, o in sorted(o2.items()):
        res.append(('pairs', k, o, {}))
    # standard input: the outcome of a single file
    for k in list(GOOD) + list(BAD):
        res.append(('standard input', (), dict(o2[(k,)], files=[]), dict(stdin=(GOOD.get(k) or BAD.get(k, b'')))))
    # many files, and few may be open
    for n in (100,) if quick else (40, 100, 500, 2000):
        for tail in ((), ('missing',), ('bad',), ('dir', 'g1')):
            k = tuple(r.choice(['g1', 'g2', 'g3']) for _ in range(n)) + tail
            o = dict(files=list(k), out=list(k[:n]), status=int(bool(tail)), msg=bool(tail))
            res.append(('many files', k, o, dict(nofile=24)))
    # what is printed is not read
    for k in ('g1', 'big'):
        res.append(('full output', (k,), dict(out=[], status=1, msg=True), dict(full=True)))
    res.append(('full output', ('bad',), dict(out=[], status=1, msg=True), dict(full=True)))
    return res, st


def judge(lint, cs):
    def job(c):
        name, k, o, kw = c
        kw = dict(kw)
        full = kw.pop('full', False)
        fh = open('/dev/full', 'wb') if full else None
        try:
            r = lint.run([lint.path[x] for x in k], out=fh, **kw)
        finally:
            if fh:
                fh.close()
        if full:
            r = (r[0], None, r[2])
        return c, lint.wrong(o, r), r
    with cf.ThreadPoolExecutor(pipe.JOBS) as ex:
        return list(ex.map(job, cs))


def terminal(lint):
    """standard input is a terminal: it says how it is used"""
    try:
        a, b = pty.openpty()
    except OSError:
        return None
    try:
        return lint.run([], stdin=b, timeout=20)
    finally:
        os.close(a)
        os.close(b)
