"""Separately compiled units link as one program: generated programs, split into units as TLC says (spec/Units.tla), each unit
compiled on its own by one of the two builds, linked, and run in a product with the TLA+ machine of the whole program."""
import random
import concurrent.futures as cf
import fam, prod, units

FAMS = [('tiny', 5), ('calls', 2), ('ctl', 1), ('full', 2)]


def check(c):
    b = c.built()
    jobs = []
    for kind, mode, n in (('tac', 16, c.q(60, 1500)), ('vm', 16, c.q(40, 1000)), ('c', 32, c.q(36, 800)), ('rtc', 32, c.q(36, 800))):
        sps = prod.corpus(c.seed * 7 + len(jobs), [(f, -(-n * k // 10)) for f, k in FAMS], mode)
        jobs.append((kind, sps))

    def plan(k):
        kind, sps = jobs[k]
        good, shapes, parts = [], [], []
        for sp in sps:
            try:
                sh = units.Split(fam.make(sp)).shape()
            except AssertionError:
                continue
            good.append(sp)
            shapes.append(sh)
        hs = []
        cut = -(-len(good) // 2) if c.tier == 'quick' else 20
        for j in range(0, len(good), cut):
            parts.append(ex.submit(units.plans, c, shapes[j:j + cut], len(good[j:j + cut]) * c.q(5, 8), k * 1000 + j))
        for j, f in zip(range(0, len(good), cut), parts):
            hs += [dict(h, p=h['p'] + j) for h in f.result()]
        random.Random(c.seed).shuffle(hs)
        cnt, res = {}, []
        for h in hs:        # more that link than not
            x = h['p'], h['v'] == 'ok'
            cnt[x] = cnt.get(x, 0) + 1
            if cnt[x] <= (2 if x[1] else 1):
                res.append(dict(good[h['p'] - 1], plan=h))
        return kind, res
    with cf.ThreadPoolExecutor(8) as ex, cf.ThreadPoolExecutor(4) as ey:
        res = list(ey.map(plan, range(len(jobs))))
    for kind, sps in res:
        for sp in sps:
            c.add(**{'plans_' + sp['plan']['v']: 1})
        prod.drive(c, kind, sps, fn=units.shard)
    return 'translation_validation'
