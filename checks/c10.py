"""Names denote what the scope rules say: histories of declarations and uses from the machine
spec/Names.tla, replayed into the translators (accepted or rejected at the right line), and the
accepted ones run with every use resolved as the specification resolves it."""
import json, os, random, re
import concurrent.futures as cf
import cases, names, prod, tlc


def histories(c, jobs):
    """run TLC once per (pool, min, max, extra arguments); the histories of all"""
    def one(k):
        pool, lo, hi, extra = jobs[k]
        rc, out = tlc.run('Names', os.path.join(c.work, 'n%d' % k), timeout=800, extra=extra,
                          env={'NPOOL': str(pool), 'MINLEN': str(lo), 'MAXLEN': str(hi), 'LISTS': 'small' if lo == hi and c.tier == 'quick' else 'all'})
        if rc:
            raise RuntimeError('TLC failed on Names: %s' % out[-3000:])
        hs = {}
        for m in re.finditer(r'^"(\{.*\})"$', out, re.M):
            s = m.group(1).replace('\\"', '"')
            hs.setdefault(s, json.loads(s))
        m = re.search(r'(\d+) states checked', out)
        return list(hs.values()), tlc.stats(out) if not m else (int(m.group(1)), int(m.group(1)))
    res, seen = [], set()
    with cf.ThreadPoolExecutor(8) as ex:
        for hs, st in ex.map(one, range(len(jobs))):
            c.add(states=st[1], transitions=st[0])
            for h in hs:
                s = json.dumps(h)
                if s not in seen:
                    seen.add(s)
                    res.append(h)
    return res


def check(c):
    r = random.Random('c10/%d' % c.seed)
    jobs = [(2, 1, 1, ()), (2, 2, 2, ())] + [(3, 1, 1, ())]
    for k in range(c.q(7, 40)):
        lo = r.choice([3, 5, 8])
        jobs.append((r.choice([2, 3, 3]), lo, lo + r.choice([2, 5, 8]),
                     ('-simulate', 'num=%d' % c.q(600, 4000), '-depth', '100', '-seed', str(c.seed * 1000 + k))))
    hs = histories(c, jobs)
    b = c.built()
    pairs = [(t, h) for t in cases.TR for h in b.hosts()]
    info, todo = {}, []
    for i, h in enumerate(hs):
        g = names.Names(1, random.Random(i), 16, h['h'], h['v'] == 'ok')
        t, host = pairs[i % len(pairs)]
        src = g.source()
        info[i] = h, g.line, src, t, host
        todo.append((i, [b.tool(t, host)], src, False))
    cnt = dict(ok=0, bad=0)
    for i, rc, _, err in cases.run_many(todo):
        h, line, src, t, host = info[i]
        cnt[h['v']] += 1
        at = cases.err_at(err)
        what = None
        last = src.split('\n')[line[-1] - 1]
        if h['v'] == 'ok':
            if rc or err:
                what = 'rejects valid declarations (%d, %s)' % (rc, err.strip()[:200])
        elif rc == 0:
            what = 'accepts: %s' % last
        elif rc < 0 or rc > 100 or not at:
            what = 'ends with status %d, %r, at: %s' % (rc, err[:200], last)
        elif at[1] != line[-1]:
            what = 'names line %d instead of %d (%s)' % (at[1], line[-1], at[2])
        if what:
            c.violation('%s/%s' % (t, json.dumps(h)), '%s (%s) %s' % (t, host, what), {'program.cmm': src})
    c.sample(info[0][2])
    c.add(traces_validated_against_impl=len(hs), accepted=cnt['ok'], rejected=cnt['bad'])
    good = [h for h in hs if h['v'] == 'ok' and len(h['h']) > 2]
    r.shuffle(good)
    for kind, mode, n in (('tac', 16, c.q(240, 6000)), ('vm', 16, c.q(160, 4000)), ('c', 32, c.q(60, 1500)), ('rtc', 32, c.q(60, 1500))):
        prod.drive(c, kind, [dict(fam='names', seed=c.seed, i=i, mode=mode, opts=list(r.choice(prod.OPTS)), h=h['h'])
                             for i, h in enumerate([h for h in good if mode == 16 or all(x['e']['op'] != 'op' for x in h['h'])][:n])])
        good = good[n // 2:]
    c.add(traces_validated_against_impl=c.cov.get('validated', 0))
    return 'model_checking'
