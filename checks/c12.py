"""Static data: the shapes of initialisers spec/Data.tla enumerates, with the memory it says they make, as
programs that show every cell; products / trace validation of those programs."""
import json, os, random, re
import concurrent.futures as cf
import prod, tlc


def shapes(c):
    def one(p):
        rc, out = tlc.run('Data', os.path.join(c.work, 'data-%d' % p), env={'WIDE': c.q('no', 'yes'), 'PART': str(p)}, timeout=800)
        if rc:
            raise RuntimeError('TLC failed on Data: ' + out[-3000:])
        return [json.loads(m.group(1).replace('\\"', '"')) for m in re.finditer(r'^"(\{.*\})"$', out, re.M)], tlc.stats(out)
    res = []
    with cf.ThreadPoolExecutor(8) as ex:
        for s, st in ex.map(one, range(8)):
            res += s
            c.add(states=st[1], transitions=st[0])
    return res


def check(c):
    r = random.Random('c12/%d' % c.seed)
    sh = shapes(c)
    sh.sort(key=lambda s: json.dumps(s['t']))
    by = {}
    for s in sh:
        by.setdefault(tuple(s['t']), []).append(s)
    for l in by.values():
        r.shuffle(l)
        l.sort(key=lambda s: len(json.dumps(s['x'])) > 400)
    # every type in turn, so that the small sets of shapes come up again and again
    def stream():
        it = {k: 0 for k in by}
        while True:
            ks = list(by)
            r.shuffle(ks)
            for k in ks:
                yield by[k][it[k] % len(by[k])]
                it[k] += 1
    st = stream()
    n = c.q(50, 1200)
    for kind, mode in (('tac', 16), ('vm', 16), ('ic', 16), ('c', 32), ('rtc', 32)):
        specs = []
        for i in range(n):
            specs.append(dict(fam='data', seed=c.seed, i=i, mode=mode, opts=r.choice([[], ['-O0'], ['-O1']]),
                              shapes=[next(st) for _ in range(r.randint(3, 14))], commons=kind != 'ic', addr=kind == 'tac'))
        prod.drive(c, kind, specs)
    c.add(traces_validated_against_impl=c.cov.get('validated', 0), shapes=len(sh))
    return 'model_checking'
