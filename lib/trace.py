"""Validation of recorded histories against a TLA+ module.

The module reads the histories from IOEnv.TRACES (a JSON list of [id, ...] records with the events in ev), has a
variable n with the number of events done, takes one event per step by one of its actions, and prints <<"V", id>> for each history it could take to the end.  A
history that is not printed has an event that no action of the specification allows; the module is run on it again with
IOEnv.SHOW = "yes", where it prints <<"N", id, n>> for every state, to find which."""
import json, os, re
import concurrent.futures as cf
import tlc


def run(c, module, traces, name, show='no', timeout=800, heap='3g', env=None):
    d = os.path.join(c.work, 'tr-%s-%s' % (module, name))
    os.makedirs(d, exist_ok=True)
    f = os.path.join(d, 't.json')
    with open(f, 'w') as h:
        json.dump(traces, h)
    e = dict(TRACES=f, SHOW=show)
    e.update(env or {})
    rc, out = tlc.run(module, d, env=e, timeout=timeout, heap=heap)
    return rc, re.sub(r'\n\s+', ' ', out)


def validate(c, module, traces, env=None, procs=8, timeout=800):
    """traces: list of dicts with a unique integer id and a list ev; returns {id: number of events accepted} of the bad ones"""
    if not traces:
        return {}
    parts = [traces[i::procs] for i in range(procs)]
    parts = [p for p in parts if p]

    def one(a):
        k, p = a
        rc, out = run(c, module, p, str(k), env=env, timeout=timeout)
        if rc:
            raise RuntimeError('TLC failed on %s: %s' % (module, out[-3000:]))
        done = set(int(x) for x in re.findall(r'<<"V", (\d+)>>', out))
        return [t for t in p if t['id'] not in done], tlc.stats(out)
    bad = []
    with cf.ThreadPoolExecutor(procs) as ex:
        for b, st in ex.map(one, enumerate(parts)):
            bad += b
            c.add(states=st[1], transitions=st[0])
    c.add(traces_validated_against_impl=len(traces), events=sum(len(t['ev']) for t in traces))
    res = {}
    if bad:
        some = bad[:400]
        rc, out = run(c, module, some, 'bad', show='yes', env=env, timeout=timeout)
        if rc:
            raise RuntimeError('TLC failed on %s: %s' % (module, out[-3000:]))
        for t in some:
            res[t['id']] = max([int(x) for x in re.findall(r'<<"N", %d, (\d+)>>' % t['id'], out)] or [0])
        for t in bad[400:]:
            res[t['id']] = -1
    return res
