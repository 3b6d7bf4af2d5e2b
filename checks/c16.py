"""Any text is translated or rejected: texts of the machine spec/Robust.tla are given to the translators, compiled with
sanitizers, and what each run did is validated by TLC against spec/Outcome.tla."""
import json, os, random, re, subprocess
import multiprocessing as mp
import build, cases, robust, trace

OPTS = [[], ['-O0'], ['-O1'], ['-O'], ['-K'], ['-O1', '-K'], ['-O0', '-K']]


def one(a):
    i, argv, src, env, limit = a
    try:
        p = subprocess.run(argv, input=src, env=env, timeout=limit, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)
        return i, p.returncode, p.stderr[:6000]
    except subprocess.TimeoutExpired:
        return i, None, b''


def events(rc, err, arg):
    """what the run did, as the machine reads it"""
    err = err.decode('utf-8', 'replace')
    ev = []
    if 'Sanitizer' in err or 'runtime error' in err:
        ev.append(dict(k='san'))
    elif err:
        at = cases.err_at(err)
        if not at or err[-1] != '\n' or err.count('\n') - at[0].count('\n') != 1:
            ev.append(dict(k='noise'))
        else:
            ev.append(dict(k='msg', arg=at[0] == arg, line=min(at[1], 2 ** 31 - 1), text=len(at[2])))
    ev.append(dict(k='hang') if rc is None else dict(k='exit', v=rc))
    return ev


def check(c):
    r = random.Random('c16/%d' % c.seed)
    nb = c.q(16, 40)
    hs = robust.histories(c, c.q([('one', 1, 0), ('sim', 4, 700), ('edit1', 4, 0), ('edits', 4, 500), ('raw', 8, 0)],
                                 [('one', 1, 0), ('sim', 16, 3000), ('edit1', 8, 0), ('edits', 16, 6000), ('raw', 16, 0)]), nb,
                          c.q(1, 2))
    bases = robust.programs(c.seed, nb)
    r.shuffle(hs)
    b = build.build(os.path.join(c.work, 's'), san=True)
    argdir = os.path.join(c.work, 'src')
    os.makedirs(argdir, exist_ok=True)
    pairs = [(t, h) for h in b.hosts() for t in cases.TR]
    jobs, info = [], {}

    def job(h, t, host, o, src, arg):
        i = len(jobs) + 1
        argv = [b.tool(t, host), *o]
        if arg != 'STDIN':
            with open(arg, 'wb') as f:
                f.write(src)
            argv.append(arg)
        jobs.append((i, argv, b'' if arg != 'STDIN' else src, b.env, 60))
        info[i] = h, t, host, o, src, arg
    cap = dict(one=10 ** 6, sim=c.q(2000, 40000), edit1=c.q(6000, 60000), edits=c.q(12000, 250000), raw=c.q(6000, 120000))
    cnt = dict.fromkeys(cap, 0)
    for h in hs:
        m = h['m']
        if cnt[m] >= cap[m]:
            continue
        cnt[m] += 1
        src = robust.text(h['h'], bases)
        arg = 'STDIN' if r.random() < .9 else os.path.join(argdir, 'p%d.cmm' % len(jobs))
        # a text of repeated constructs goes to every translator, the others to one and, edited once, to its twin
        if m == 'one':
            k = r.randrange(2)
            ps = [p for p in pairs if p[1] == b.hosts()[k]] if c.tier == 'quick' else pairs
        else:
            ps = [r.choice(pairs)]
        for t, host in ps:
            o = [] if h['h'][0][0] == 'base' and h['v'] == 'acc' else r.choice(OPTS)
            job(h, t, host, o, src, arg)
    groups = {}
    with mp.get_context('fork').Pool(8) as pool:
        for i, rc, err in pool.imap_unordered(one, jobs, chunksize=16):
            h, t, host, o, src, arg = info[i]
            v = h['v']
            # constructs and programs as they are count as valid for every translator; -K changes nothing about that
            rec = dict(v=v, lines=src.count(b'\n') + 1, marked=b'#' in src, ev=events(rc, err, arg))
            groups.setdefault(json.dumps(rec, sort_keys=True), []).append((i, rc, err))
    traces, back = [], {}
    for k, l in groups.items():
        tr = dict(json.loads(k), id=len(traces) + 1)
        traces.append(tr)
        back[tr['id']] = l
    for tid in trace.validate(c, 'Outcome', traces):
        for i, rc, err in back[tid][:3]:
            h, t, host, o, src, arg = info[i]
            e = err.decode('utf-8', 'replace')
            where = re.search(r'#\d+ 0x\w+ in (?!__)(\w+) \S*/(\w+\.\w+:\d+)', e)
            key = '%s/%s' % (h['v'], where.group(2) if where else json.dumps([x[0] for x in h['h']][-3:]))
            c.violation(key, '%s (%s) %s: %s; a text that is %s; history %s' %
                        (t, host, ' '.join(o), 'does not end' if rc is None else 'status %d, %r' % (rc, e[:1500]),
                         dict(acc='valid and small', rej='cut short', any='arbitrary')[h['v']], json.dumps(h['h'])), {'program.cmm': src})
    c.cov['traces_validated_against_impl'] = len(jobs)
    c.add(outcomes=len(traces), **{'texts_' + k: v for k, v in cnt.items()})
    for m in cnt:
        c.sample('%s: %s' % (m, json.dumps(next(h['h'] for h in hs if h['m'] == m))))
    c.add(accepted=sum(len(l) for k, l in groups.items() if '"v": 0' in k), must_accept=sum(1 for i in info if info[i][0]['v'] == 'acc'))
    return 'model_checking'
