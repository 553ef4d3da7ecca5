"""Destinations that fail, judged by the Output machine (C13)."""
import base64, concurrent.futures as cf, json, os
import pipe

LATIN = ['<?xml version="1.0" encoding="iso-8859-1"?><a b="\u00e9">\u00e9\u00ff<!--\u00e0--><?p \u00e1?>&#233;&#8364;&#x4e2d;x</a>'.encode('latin1'),
         '<?xml version="1.0" encoding="koi8-r"?><a>\u0430\u0431<b/>&#233;</a>'.encode('koi8_r'),
         '<?xml version="1.0" encoding="windows-1251"?><a>\u0430\u0431<b/>\u0432</a>'.encode('cp1251'),
         '<?xml version="1.0" encoding="euc-jp"?><a>\u3042\u4e2d<b c="\u3044"/>&#233;</a>'.encode('euc_jp'),
         '<?xml version="1.0" encoding="shift_jis"?><a>\u3042\u4e2d<b c="\u3044"/></a>'.encode('shift_jis')]


def model(sc):
    return sc.tlc1('Output', cfg='OutputModel.cfg', workers=8)[1]


def judge(sc, docs, r, runs):
    """[(document, run or None, target, mismatch, bytes)]"""
    cs = [{'ID': i, 'B': base64.b64encode(b).decode(), 'Max': runs, 'Seed': r.randrange(1 << 30)} for i, b in enumerate(docs)]
    res = sc.drive('output', cs)
    out, todo = [], []
    skipped = 0
    for c, b in zip(cs, docs):
        line = res.get(c['ID'])
        if line is None:
            continue
        if len(line) < 20000:
            o = json.loads(line)
            if 'crash' in o:
                out.append((b, None, '', 'crash: ' + o['crash'], 0))
                continue
            if o.get('skip'):
                skipped += 1
                continue
            if 'refused' in o:
                out.append((b, None, o['w'], 'not serialized: ' + o['refused'], 0))
                continue
        todo.append((b, line))
    todo.sort(key=lambda x: -len(x[1]))
    n = max(1, min(len(todo), max(pipe.JOBS, len(todo) // 80)))
    parts = [p for p in (todo[i::n] for i in range(n)) if p]

    def job(part):
        f = sc.fresh('.trace')
        with open(f, 'wb') as fh:
            for b, line in part:
                fh.write(line)
        os_ = [json.loads(line) for b, line in part]
        o, st = sc.tlc1('Output', {'TRACE': f}, cfg='OutputTrace.cfg')
        os.unlink(f)
        rs = list(pipe.results(o))
        if len(rs) != sum(len(x['runs']) for x in os_):
            raise pipe.Error('TLC judged %d of %d runs' % (len(rs), sum(len(x['runs']) for x in os_)))
        got = []
        for d, a, bad, n in rs:
            x = os_[d - 1]['runs'][a - 1]
            got.append((part[d - 1][0], {k: x[k] for k in ('mode', 'k', 'ret')}, os_[d - 1]['names'][x['t'] - 1], bad, n))
        return got, st

    states = trans = 0
    with cf.ThreadPoolExecutor(pipe.JOBS) as ex:
        for o, st in ex.map(job, parts):
            out += o
            states += st[1]
            trans += st[0]
    return out, (trans, states), skipped
