"""Commands build what their options say: command lines and failing passes from the machine spec/Driver.tla, run with the real
scripts over stand-ins for the tools they call (lib/stub.c), and argument lists from spec/Options.tla, run with the real translators."""
import json, os, random, re, shutil, subprocess
import concurrent.futures as cf
import build, cases, tlc

BASE = ['a', 'b', 'x.y', 'e']
TOOLS = ['cpp', 'c--', 'c-c--', 'rtc-c--', 'ic-c--', 'vm-c--', 'as--', 'ld--', 'objexe--', 'cc']
HERE = os.path.dirname(os.path.abspath(__file__))


def lines(out):
    hs = {}
    for m in re.finditer(r'^"(\{.*\})"$', out, re.M):
        s = m.group(1).replace('\\\\', '\0').replace('\\"', '"').replace('\0', '\\')
        hs.setdefault(s, json.loads(s))
    return list(hs.values())


def enumerate_(c, module, jobs):
    def one(k):
        env, extra = jobs[k]
        rc, out = tlc.run(module, os.path.join(c.work, '%s%d' % (module, k)), timeout=800, extra=extra, env=env)
        if rc:
            raise RuntimeError('TLC failed on %s: %s' % (module, out[-3000:]))
        m = re.search(r'(\d+) states checked', out)
        return lines(out), tlc.stats(out) if not m else (int(m.group(1)), int(m.group(1)))
    res = {}
    with cf.ThreadPoolExecutor(8) as ex:
        for hs, st in ex.map(one, range(len(jobs))):
            c.add(states=st[1], transitions=st[0])
            for h in hs:
                res.setdefault(json.dumps(h), h)
    return list(res.values())


def setup(c, b):
    d = os.path.join(c.work, 'stub')
    os.makedirs(d)
    p = subprocess.run(['gcc', '-w', '-O1', '-o', d + '/stub', os.path.join(HERE, '..', 'lib', 'stub.c')], stderr=subprocess.PIPE)
    if p.returncode:
        raise build.BuildError(p.stderr.decode())
    for t in TOOLS:
        os.symlink('stub', os.path.join(d, t))
    return d


def files(d):
    res = {}
    for p, _, fs in os.walk(d):
        for f in fs:
            with open(os.path.join(p, f), encoding='latin-1') as g:
                res[os.path.relpath(os.path.join(p, f), d)] = g.read()
    return res


def src(i, s):
    return s['d'] + BASE[i] + '.' + ('cmm' if s['k'] == 'none' else s['k'])


def words(opts):
    res = []
    for o in opts:
        res += o.split(' ', 1) if o[:3] in ('-I ', '-o ') else [o]
    return res


def run(c, b, stub, i, h, host):
    """the command line and what is wrong with the run, or None"""
    d = os.path.join(c.work, 'w', str(i))
    os.makedirs(d + '/d')
    for x in ('i1', 'i2'):
        os.mkdir(os.path.join(d, x))
    start = {}
    for k, s in enumerate(h['srcs']):
        if s['k'] != 'none':
            start[src(k, s)] = 'src%d' % (k + 1)
            with open(os.path.join(d, src(k, s)), 'w') as f:
                f.write('src%d' % (k + 1))
    argv = ['bash', b.tool(h['cmd'], host)] + words(h['opts']) + [src(k, s) for k, s in enumerate(h['srcs'])]
    env = dict(b.env, PATH=stub + ':/usr/bin:/bin', COUNT=os.path.join(c.work, 'w', '%d.count' % i), incdir='-Iinherited', objs='inherited.o', tmps='')
    if h['fails'] in TOOLS:
        env['FAIL'] = '%s:%d' % (h['fails'], h['ran'].count(h['fails']))
    try:
        p = subprocess.run(argv, cwd=d, env=env, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=60)
    except subprocess.TimeoutExpired:
        return argv, 'does not end'
    try:
        return argv, judge(h, start, p, files(d))
    finally:
        shutil.rmtree(d)
        if os.path.exists(env['COUNT']):
            os.unlink(env['COUNT'])


def judge(h, start, p, end):
    err = p.stderr.decode('utf-8', 'replace')[-300:]
    keep = dict(h['keep'])
    for n, t in start.items():
        if n in end and end.pop(n) == t:
            continue
        return 'damages its source %s' % n
    exe = h['exe']
    free = {re.sub(r'\.exe$', '', exe) + '.map'} if h['cmd'] == 'cm2e' else set()
    if h['st'] == 'good':
        if p.returncode:
            return 'fails with status %d: %s' % (p.returncode, err)
        for n, t in keep.items():
            if n not in end:
                return 'does not make %s' % n
            if end[n] != t:
                return 'makes %s from %s instead of %s' % (n, end[n], t)
        more = set(end) - set(keep) - (free if exe in keep else set())
        if more:
            return 'leaves %s' % sorted(more)
        if '-E' in h['opts'] and p.stdout.decode() != h['out']:
            return 'prints %s instead of %s' % (p.stdout.decode(), h['out'])
    else:
        if p.returncode == 0:
            return 'ends with status 0 although %s' % ('there is no file to compile' if h['fails'] == 'usage' else h['fails'] + ' fails')
        if h['w']:
            free |= {exe}
        for n, t in end.items():
            if n in free:
                continue
            if n not in keep:
                return 'leaves %s' % n
            if t != keep[n]:
                return 'leaves a wrong %s' % n
    return None


FINE = 'int f() { return 1234 + 4321; }\n'
WRONG = 'int f() { return z; }\n'


def translators(c, b):
    hs = enumerate_(c, 'Options', [({'MAXARGS': str(c.q(4, 5))}, ())])
    d = os.path.join(c.work, 'opt')
    os.makedirs(d)
    open(d + '/f.cmm', 'w').write(FINE)
    open(d + '/bad.cmm', 'w').write('\n' + WRONG)
    jobs = [(t, host, h) for t in cases.TR for host in b.hosts() for h in hs]
    if len(jobs) > c.q(6000, 10 ** 9):
        jobs = random.Random(c.seed).sample(jobs, 6000)

    def go(j):
        t, host, h = j
        p = subprocess.run([b.tool(t, host)] + h['args'], cwd=d, input=FINE.encode(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=60)
        return p.returncode, p.stdout.decode('latin-1'), p.stderr.decode('utf-8', 'replace')
    first = {}
    with cf.ThreadPoolExecutor(8) as ex:
        for (t, host, h), (rc, out, err) in zip(jobs, ex.map(go, jobs)):
            what = None
            if h['v'] == 'usage':
                if rc or out or '-K' not in err:
                    what = 'does not print its usage'
            elif h['v'] == 'fail':
                if rc <= 0 or rc > 100:
                    what = 'ends with status %d' % rc
            elif h['v'] == 'error':
                m = cases.err_at(err)
                if rc <= 0 or rc > 100 or not m or m[0] != 'bad.cmm' or m[1] != 2:
                    what = 'ends with status %d and %r' % (rc, err[-200:])
            else:
                if rc or err:
                    what = 'fails with status %d: %s' % (rc, err[-200:])
                elif ('5555' in out) != h['opt']:
                    what = '%s the constant expression' % ('computes' if '5555' in out else 'does not compute')
                elif t == 'c--' and ('__stkChk' in out) == h['krn']:
                    what = 'has %s check of the stack' % ('a' if h['krn'] else 'no')
                else:
                    k = t, host, h['opt'], h['krn'] and t[:2] != 'c-' and t[:3] != 'rtc' or t == 'c--' and h['krn']
                    # with a file and from the standard input the text is the same but for the name
                    o = out.replace('STDIN', 'f.cmm')
                    if first.setdefault(k, o) != o:
                        what = 'gives another output'
            if what:
                c.violation('%s %s' % (t, ' '.join(h['args'])), '%s %s (%s) %s' % (t, ' '.join(h['args']), host, what))
    c.add(traces_validated_against_impl=len(jobs), argument_lists=len(hs))


def check(c):
    b = c.built()
    stub = setup(c, b)
    jobs = [({'MAXOPTS': '1', 'MAXSRCS': '1', 'FAILS': '1'}, ())]
    if c.tier == 'thorough':
        jobs = [({'MAXOPTS': '2', 'MAXSRCS': '1', 'FAILS': '1'}, ()), ({'MAXOPTS': '1', 'MAXSRCS': '2', 'FAILS': '1'}, ())]
    for k in range(c.q(7, 30)):
        jobs.append(({'MAXOPTS': str(2 + k % 3), 'MAXSRCS': str(2 + k % 2), 'FAILS': str(int(k % 3 == 0))},
                     ('-simulate', 'num=%d' % c.q(700, 4000), '-depth', '60', '-seed', str(c.seed * 1000 + k))))
    hs = enumerate_(c, 'Driver', jobs)
    cnt = {}
    todo = [(i, h, b.hosts()[i % len(b.hosts())]) for i, h in enumerate(hs)]
    with cf.ThreadPoolExecutor(8) as ex:
        for (i, h, host), (argv, what) in zip(todo, ex.map(lambda x: run(c, b, stub, *x), todo)):
            cnt[h['cmd'], h['st']] = cnt.get((h['cmd'], h['st']), 0) + 1
            if what:
                cmd = ' '.join([h['cmd']] + argv[2:])
                c.violation('%s fails=%s' % (cmd, h['fails']), '%s (%s%s) %s' % (cmd, host, ', %s fails' % h['fails'] if h['fails'] else '', what),
                            {'history.json': json.dumps(h, indent=1)})
    for k, n in cnt.items():
        c.add(**{'%s_%s' % k: n})
    c.sample(json.dumps(hs[-1]))
    c.add(traces_validated_against_impl=len(hs))
    for cmd in ('cm2e', 'cm2c', 'cm2i', 'cm2v'):
        for host in b.hosts():
            d = os.path.join(c.work, 'h')
            os.makedirs(d, exist_ok=True)
            p = subprocess.run(['bash', b.tool(cmd, host), '-h'], cwd=d, env=dict(b.env, PATH=stub + ':/usr/bin:/bin', COUNT=c.work + '/hc'), stdout=subprocess.PIPE, stderr=subprocess.PIPE)
            if b'-nostdinc' not in p.stderr + p.stdout or os.listdir(d) or os.path.exists(c.work + '/hc'):
                c.violation(cmd + ' -h', '%s -h (%s) does not just print its usage' % (cmd, host))
    translators(c, b)
    c.assumptions += ['the tools called by the commands are replaced by stand-ins that write what they were asked to make from what',
                      'sources are named after the options, with names without blanks; the map file of cm2e is not looked at']
    return 'model_checking'
