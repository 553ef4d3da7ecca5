"""The stacks of internal/stack, judged by the Stack machine."""
import concurrent.futures as cf, json, os, re, subprocess
import pipe

OPS = [['push', 'a', 0], ['push', 'b', 0], ['pop', '', 0], ['popn', '', 2], ['poplast', '', 0], ['peek', '', 2]]


def build(sc):
    """the driver, or None if the stacks are not there any more"""
    out = sc.path('vxstk')
    try:
        sc.gobuild('./internal/vxstk', out, {pipe.REPO + '/internal/vxstk/main.go': pipe.VERIF + '/driver_stack/main.go'})
    except pipe.Error:
        return None
    return out


def histories(sc, n):
    f = sc.fresh('.hist')
    json.dump({'ops': OPS, 'max': n}, open(f, 'w'))
    out, st = sc.tlc1('Stack', {'HIST': f}, cfg='StackHist.cfg', workers=4)
    hs = [json.loads(m.group(1)) for m in re.finditer(r'^"HIST (\[.*\])"$', out, re.M)]
    return [[OPS[i - 1] for i in h] for h in hs], st


def walk(r, n):
    """a long history that goes deep and comes back, many times"""
    ops = []
    depth = 0
    up = True
    target = r.choice([5, 25, 60, 150])
    keys = r.choice([['a', 'b', 'c', 'd', ''], ['a'], ['k%d' % i for i in range(400)]])
    while len(ops) < n:
        if up and depth > target:
            up, target = False, r.choice([0, 0, 1, 3, 9, 20, depth // 2])
        if not up and depth <= target:
            up, target = True, r.choice([5, 22, 45, 90, 150])
        x = r.random()
        if x < .15:
            ops.append(['peek', '', r.choice([0, 1, 1, 2, 5, depth, depth + 1])])
        elif up and x < .9 or not up and x < .3:
            ops.append(['push', r.choice(keys), 0])
            depth += 1
        else:
            k = r.choice(['pop', 'pop', 'popn', 'poplast'])
            m = r.choice([0, 1, 2, 3, 10, depth // 2, depth, depth + 3]) if k == 'popn' else 0
            ops.append([k, '', m])
            depth = max(0, depth - (m if k == 'popn' else 1))
    return ops


def judge(sc, driver, cases):
    """cases: (kind, ops); [(case, mismatch, operations)]"""
    parts = [p for p in (cases[i::pipe.JOBS] for i in range(pipe.JOBS)) if p]

    def job(part):
        fin, fout = sc.fresh('.in'), sc.fresh('.trace')
        with open(fin, 'w') as f:
            for k, ops in part:
                f.write(json.dumps({'Kind': k, 'Ops': ops}) + '\n')
        p = subprocess.run([driver, fin, fout], capture_output=True, text=True, timeout=300, env=pipe.goenv())
        if p.returncode != 0:
            return [(part[0], 'crash: ' + p.stderr[:300], 0)], (0, 0)
        out, st = sc.tlc1('Stack', {'TRACE': fout}, cfg='StackTrace.cfg')
        r = {x[0]: x[1:] for x in pipe.results(out)}
        if len(r) != len(part):
            raise pipe.Error('TLC judged %d of %d histories' % (len(r), len(part)))
        return [(part[i - 1], v[0], v[1]) for i, v in r.items()], st

    out, states, trans = [], 0, 0
    with cf.ThreadPoolExecutor(pipe.JOBS) as ex:
        for o, st in ex.map(job, parts):
            out += o
            states += st[1]
            trans += st[0]
    return out, (trans, states)
