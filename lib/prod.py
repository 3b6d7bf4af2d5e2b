"""Product runs: the source machine (spec/Cmm.tla) against a target machine running the
compiled program, sharded over TLC processes."""
import concurrent.futures as cf
import json, os, random, shutil
import asm, ctrace, fam, tlc, vmasm

MODULE = {'tac': 'TacProd', 'int': 'IntProd', 'vm': 'VmProd', 'ic': 'VmProd', 'vmint': 'VmIntProd', 'icint': 'VmIntProd', 'c': 'CTrace', 'rtc': 'CTrace'}
TOOL = {'tac': 'c--', 'int': 'c--', 'vm': 'vm-c--', 'ic': 'ic-c--', 'vmint': 'vm-c--', 'icint': 'ic-c--', 'c': 'c-c--', 'rtc': 'rtc-c--'}


def target(kind, text, g):
    """image of the compiled program for the target machine"""
    ext = {'_' + f['name']: f['no'] for f in g.funcs if f['j']['ext']}
    if kind in ('tac', 'int'):
        a = asm.Asm()
        a.add(text, 'out.s')
        ext['__stkChk'] = 0
        im = a.image(ext, heapwords=g.heapwords)
        if a.sym.get('_main', 'x')[0] != 'c':
            raise asm.AsmError('no _main')
        im['entry'] = a.sym['_main'][1]
        if kind == 'int':
            im['intr'] = a.sym[g.intrname][1]
        return im
    if kind in ('ic', 'icint'):
        text = vmasm.ic_to_vm(text, vmasm.ic_names(text, g.order))
    return vmasm.image(text, ext, g.intrname.lstrip('1') if kind in ('vmint', 'icint') else None)


def prog_json(kind, g):
    j = g.json()
    if kind not in ('tac', 'int'):
        for d in j['nodes']:
            if 'f' in d:
                d['f'] = 0
    return j


def shard(args):
    """compile and validate the programs of one shard; returns a result dict"""
    kind, built, specs, work, budget = args
    os.makedirs(work, exist_ok=True)
    tool = TOOL[kind]
    progs, meta = [], {}
    fname = ''
    res = dict(n=0, traces=0, compiled=0, ok=0, faults=0, unspec={}, bad=[], states=0, events=0, err=None, sample=None)
    for sp in specs:
        if len(res['bad']) >= 4:
            break
        g = fam.make(sp)
        src = g.source()
        res['n'] += 1
        seen = {}
        for host, opts in [(h, x) for h in built.hosts() for x in sp.get('optsets') or [sp.get('opts', ())]]:
            o = list(opts)
            if kind == 'rtc':       # the messages name the source file
                fname = 'p%d.cmm' % (sp['i'] % 7)
                open(os.path.join(work, fname), 'w').write(src)
                o.append(fname)
            rc, out, err = built.compile(tool, src, o, host, cwd=work)
            if rc or (err and not sp.get('warn')):
                res['bad'].append(dict(sp=sp, host=host + ' ' + ' '.join(opts), why='%s: exit status %d on a valid program: %s'
                                       % (tool, rc, err[:500]), src=src, out=out))
                continue
            res['compiled'] += 1
            if out in seen:
                continue
            seen[out] = 1
            host += ' ' + ' '.join(opts)
            j = prog_json(kind, g)
            j['chk'] = int('-K' not in opts)
            js = []
            inputs = getattr(g, 'runs', None) or [g.inp]
            if kind in ('c', 'rtc'):
                rs = ctrace.execute(built, g, out, kind == 'rtc', work, fname, inputs)
                if isinstance(rs, str):
                    res['bad'].append(dict(sp=sp, host=host, why=rs, src=src, out=out))
                    continue
                for inp, (tr, fault) in zip(inputs, rs):
                    js.append(dict(j, inp=inp, trace=tr, fault=fault, rtc=int(kind == 'rtc')))
                res['traces'] += len(js)
            else:
                try:
                    im = target(kind, out, g)
                except (asm.AsmError, vmasm.VmError) as e:
                    res['bad'].append(dict(sp=sp, host=host, src=src, out=out,
                                           why='%s output is not a valid program: %s' % (tool, e)))
                    continue
                js = [dict(j, inp=inp, tac=im) for inp in inputs]
            for j in js:
                j['id'] = len(progs) + 1
                meta[j['id']] = (sp, host, src, out)
                progs.append(j)
    if progs:
        run(MODULE[kind], progs, meta, res, work, budget)
    if not res['sample'] and meta:
        k = next(iter(meta))
        res['sample'] = meta[k][2]
    shutil.rmtree(work, ignore_errors=True)
    return res


def run(module, progs, meta, res, work, budget):
    pf = os.path.join(work, 'p.json')

    def once(ps):
        json.dump(ps, open(pf, 'w'))
        rc, out = tlc.run(module, os.path.join(work, 'w'), {'PROGS': pf}, timeout=budget)
        return rc, out, tlc.verdicts(out)
    rc, out, v = once(progs)
    gen, st = tlc.stats(out)
    res['states'] += st
    miss = [p for p in progs if p['id'] not in v]
    if miss and rc == -9:
        res['err'] = 'TLC timeout, %d of %d programs unfinished' % (len(miss), len(progs))
        miss = []
    # TLC stops at an evaluation error: give the others their verdict
    rounds = 0
    while miss and rounds < 40:
        rounds += 1
        first = miss[0]
        rc, out, w = once([first])
        if first['id'] in w:
            v[first['id']] = w[first['id']]
        else:
            sp, host, src, o = meta[first['id']]
            rc2, out2, w2 = once([first])
            if first['id'] in w2 or rc2 == -9:
                res['err'] = 'TLC: no verdict for program %s' % (sp,)
            else:
                res['bad'].append(dict(sp=sp, host=host, src=src, out=o,
                                       why='the machine cannot execute the compiled program:\n' + out2[-800:]))
            v[first['id']] = ('none', '')
        rest = miss[1:]
        if rest:
            rc, out, w = once(rest)
            v.update(w)
            res['states'] += tlc.stats(out)[1]
        miss = [p for p in rest if p['id'] not in v]
    if miss and not res['err']:
        res['err'] = '%d programs without verdict' % len(miss)
    byid = {p['id']: p for p in progs}
    for i, (st, info) in v.items():
        sp, host, src, o = meta[i]
        if st == 'ok':
            res['ok'] += 1
            res['events'] += int(info.rsplit(',', 1)[1])
            res['faults'] += '"fault"' in info
        elif st == 'bad':
            rc, out, w = once([byid[i]])
            if w.get(i, ('?',))[0] == 'bad':
                res['bad'].append(dict(sp=sp, host=host, src=src, out=o, why=str(info)))
            else:
                res['err'] = 'verdict of %s not reproducible' % (sp,)
        elif st in ('unspec', 'fault'):
            res['unspec'][info.split(',')[0]] = res['unspec'].get(info.split(',')[0], 0) + 1


def drive(c, kind, specs, workers=None, budget=None, fn=shard, chunk=None, what=None):
    """run the shards, report violations, add to the coverage of check c"""
    import chk
    workers = workers or chk.NCPU
    built = c.built()
    # deal the specs out, so that expensive families are spread
    n = workers if not chunk else max(workers, -(-len(specs) // chunk))
    parts = [p for p in (specs[i::n] for i in range(n)) if p]
    budget = budget or c.q(300, 800)
    jobs = [(kind, built, p, os.path.join(c.work, '%s%d' % (kind, i)), budget)
            for i, p in enumerate(parts)]
    errs = []
    with cf.ProcessPoolExecutor(workers) as ex:
        for r in ex.map(fn, jobs):
            c.add(programs=r['n'], compilations=r['compiled'], states=r['states'],
                  disagreements_checked=r['events'], validated=r['ok'])
            if r['traces']:
                c.add(traces=r['traces'])
            if r['faults']:
                c.add(illegal_accesses=r['faults'])
            if r.get('refused'):
                c.add(links_refused=r['refused'])
            if r['unspec']:
                c.add(unspecified=sum(r['unspec'].values()))
                if os.environ.get('CMM_DEBUG'):
                    print(r['unspec'])
            if r['sample']:
                c.sample(r['sample'], 2)
            if r['err']:
                errs.append(r['err'])
            for b in r['bad']:
                sp = b['sp']
                key = '%s/%s/%d.%d' % (kind, sp['fam'], sp['seed'], sp['i'])
                if sp.get('key'):
                    key = sp['key']
                c.violation(key, '%s program %s (%s): %s' % (
                    what or TOOL.get(kind, kind), key, b['host'].strip(), b['why']),
                    {'program.cmm': b['src'], 'output.txt': b['out'], 'spec.json': json.dumps(sp)})
    if errs and not c.nviol:
        raise RuntimeError('; '.join(errs[:3]))


OPTS = ([], [], ['-O0'], ['-O'], ['-O1'])
K = (['-K'], ['-O0', '-K'], ['-O1', '-K'])
OPTSK = OPTS + K


def corpus(seed, mix, mode=16, optsets=OPTS):
    """mix: (family, count) pairs"""
    res = []
    for f, n in mix:
        for i in range(n):
            r = random.Random('%s/%d/%d' % (f, seed, i))
            res.append(dict(fam=f, seed=seed, i=i, mode=mode, opts=list(r.choice(optsets))))
    random.Random(seed).shuffle(res)
    return res
