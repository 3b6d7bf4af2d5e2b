"""One compiler in several bodies: the same texts are given to the compiler written in C, to the one written in C-- (compiled
through C), and to the latter compiled to TaC by itself and run on the TaC machine with the TaC library; TLC validates the
recorded runs against spec/Twins.tla."""
import hashlib, json, os, random, re, subprocess
import multiprocessing as mp
import cases, fam, robust, tacsim, trace
from tacsim import Exit, Fault

UNITS = 'main parser lexer namtbl util sytree vmCode vm2tac optree'.split()
MORE = ['cCode', 'vm2vm', 'vm2ic']
DEFS = ['-DDATE="d"', '-DVER="v"', '-DARC="TaC"', '-DNWORD=16', '-DNBYTE=8', '-DC']
OPTS = [[], ['-O0'], ['-O1'], ['-O'], ['-K'], ['-O1', '-K'], ['-O0', '-K']]
FULL = (-26,)     # the stack has met the heap
BIG = re.compile(rb'[1-9]\d{5}|[7-9]\d{4}|6(5[6-9]|[6-9])\d{3,}|655(3[6-9]|[4-9]\d)|0[xX]0*[1-9a-fA-F][0-9a-fA-F]{4}|0[0-7]{6}')
NUM = re.compile(rb'(?<![\w.])-?\d+')


def meant(t):
    return NUM.sub(lambda m: b'%d' % (int(m.group(0)) % 65536), t)


def dig(*a):
    return hashlib.sha1(b'\0'.join(a)).hexdigest()


def cpp(path, defs=()):
    p = subprocess.run(['cpp', '-nostdinc', '-I' + os.path.join(tacsim.build.REPO, 'include'), '-I' + os.path.dirname(path), *defs, path],
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if p.returncode:
        raise RuntimeError('cpp: ' + p.stderr.decode('utf-8', 'replace'))
    return p.stdout


class Native:
    """the compiler as a TaC program"""
    def __init__(self, so, im):
        self.m = tacsim.Machine(so, im)
        self.m.limit, self.m.svcs = 400000000, 1 << 30

    def kernel(self, no, a, b, d):
        m = self.m
        if no == 1:
            raise Exit(a - 65536 * (a >> 15))
        if no == 8:
            self.at = 0
            return 3
        if no == 9:
            return 0
        if no == 13:
            if m.str(a)[-1:] == b'/':
                m.word(b, 0x10)
            else:
                for i, w in enumerate((1, 2, len(self.src) >> 16, len(self.src) & 0xffff)):
                    m.word(b + 2 * i, w)
            return 0
        if no == 10:
            t = self.src[self.at:self.at + d]
            self.at += len(t)
            m.put(b, t)
            return len(t)
        if no == 15:
            self.out.append(m.get(a, b))
            return b
        raise Fault('system call %d' % no)

    def run(self, src, opts, name):
        m = self.m
        self.src, self.out = src, []
        m.kernel = self.kernel
        m.reset(1)
        p, at = tacsim.TOP, []
        args = [b'/c--', *[o.encode() for o in opts], name]
        for s in args:
            p -= len(s) + 1
            at.append(p)
            m.put(p, s + b'\0')
        p &= ~1
        p -= 2
        m.word(p, 0)
        env = p
        p -= 2
        m.word(p, 0)
        for a in reversed(at):
            p -= 2
            m.word(p, a)
        argv = p
        for w in (env, argv, len(args)):
            p -= 2
            m.word(p, w)
        m.R[14] = p
        m.pc.value, m.steps.value = 1, 0
        try:
            m.go()
            st = 'returns'
        except Exit as x:
            st = x.args[0]
        except Fault as x:
            st = str(x)
        return st, b''.join(self.out)


N, HUNG = {}, []


def start(so, ims):
    tacsim.TOP = 0xFFF0
    for name, im in ims.items():
        N[name] = Native(so, im)


def says(t):
    """the messages alone: the constants of an edited program may be any (too large, negative under % and so on)"""
    return b'\n'.join(x for x in t.split(b'\n') if x.startswith(b'"/s.cmm"'))


def one(job):
    """all the runs of one text; a list of events, with the outputs to show"""
    i, src, opts, runs, path, large, exact = job
    read = meant if exact else says
    with open(path, 'wb') as f:
        f.write(src)
    ev, show = [], []
    for tool, body, argv in runs:
        if HUNG.count(body) > 2:       # what hangs is already known; do not wait for the rest
            continue
        if body[:3] == 'tac':
            st, out = N[body].run(src, opts, b'/s.cmm')
            if 'no end' in str(st):
                HUNG.append(body)
            show.append((tool, body, st, out))
            ev.append(dict(tool=tool, opts=' '.join(opts), text=i, body='tac', st=str(st), all='', meant=dig(read(out)),
                           full=st in FULL, large=large))
            continue
        try:
            p = subprocess.run(argv + opts + [path], stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=20)
            st, out, err = p.returncode, p.stdout, p.stderr
        except subprocess.TimeoutExpired:
            st, out, err = 'hang', b'', b''
            HUNG.append(body)
        err = err.replace(path.encode(), b'/s.cmm')
        out = out.replace(path.encode(), b'/s.cmm')
        show.append((tool, body, st, out + err))
        ev.append(dict(tool=tool, opts=' '.join(opts), text=i, body=body, st=str(st), all=dig(out, err), meant=dig(read(out + err)),
                       full=False, large=False))
    os.unlink(path)
    return i, ev, show


def check(c):
    r = random.Random('s01/%d' % c.seed)
    b = c.built()
    so = tacsim.simlib(c.work)
    tacsim.TOP = 0xFFF0
    src = os.path.join(tacsim.build.REPO, 'src--')
    own = [(u, cpp(os.path.join(src, u + '.cmm'), DEFS + (['-D_C'] if u == 'cCode' else []))) for u in UNITS + MORE]
    root = os.path.join(tacsim.build.REPO, 'lib')
    own += [(f, cpp(os.path.join(root, f))) for f in tacsim.LIB if f.endswith('.cmm')]
    ims = {}
    for name, host, o in c.q((('tac1', 'src--', []),), (('tac1', 'src--', []), ('tac0', 'src', ['-O0']))):
        extra = []
        for u, t in own[:len(UNITS)]:
            rc, out, err = b.compile('c--', t, o, host)
            if rc:
                c.violation('self/%s' % u, 'c-- (%s) rejects %s.cmm: %s' % (host, u, err), {u + '.cmm': t})
                return 'model_checking'
            extra.append((u, out))
        ims[name] = tacsim.library(b.tool('c--', host), o, extra=extra, dbase=0x1000)
    nb = c.q(24, 60)
    bases = robust.programs(c.seed, nb)
    hs = robust.histories(c, c.q([('one', 1, 0), ('sim', 2, 400), ('edits', 4, 300)], [('one', 1, 0), ('sim', 8, 3000), ('edits', 8, 5000)]), nb)
    r.shuffle(hs)
    texts = [(('own', u), t, True, True) for u, t in own]
    for k in range(c.q(200, 4000)):
        f = r.choice(['full', 'ops', 'ctl', 'fold', 'calls', 'prec', 'deep', 'tiny'])
        texts.append((('program', f, k), fam.make(dict(seed=c.seed, i=1000 + k, fam=f, mode=16)).source().encode(), True, True))
    cap = dict(one=c.q(700, 10 ** 6), sim=c.q(600, 20000), edits=c.q(5000, 120000))
    for h in hs:
        if cap[h['m']] > 0:
            cap[h['m']] -= 1
            t = robust.text(h['h'], bases)
            if h['m'] == 'edits' or len(t) < 30000:
                texts.append((h['h'], t, h['m'] == 'edits' or len(t) > 8000 or any(x[1] > 60 for x in h['h']), h['m'] != 'edits'))
    jobs, info = [], {}
    for i, (h, t, large, exact) in enumerate(texts):
        valid = h[0] in ('own', 'program')
        o = r.choice(OPTS)
        runs = []
        for tool in (cases.TR if valid else r.sample(cases.TR, 1)):
            for body in b.hosts():
                runs.append((tool, body, [b.tool(tool, body)]))
            if r.random() < .1:
                runs.append((tool, 'src', [b.tool(tool, 'src')]))
        # the TaC machine reads the end of a file and the byte 255 alike
        # and a constant beyond 16 bits is not the same in all of them
        if 255 not in t and (valid or not BIG.search(t)) and (valid or r.random() < .5):
            if not any(x[0] == 'c--' for x in runs):
                runs.append(('c--', 'src', [b.tool('c--', 'src')]))
            runs.append(('c--', r.choice(list(ims)), None))
        jobs.append((i + 1, t, o, runs, os.path.join(c.work, 's%d.cmm' % i), large, exact))
        info[i + 1] = h, t, o
    traces, shows = [], {}
    with mp.get_context('fork').Pool(8, start, (so, ims)) as pool:
        for i, ev, show in pool.imap_unordered(one, jobs, chunksize=8):
            traces.append(dict(id=i, ev=ev))
            shows[i] = [dig(x[3]) for x in show] if len(traces) > 20 else show
    by = {j[0]: j for j in jobs}
    bad = trace.validate(c, 'Twins', traces)
    if bad:
        start(so, ims)
    for i, k in sorted(bad.items()):
        h, t, o = info[i]
        _, ev, show = one(by[i])
        x = show[k] if 0 <= k < len(show) else show[-1]
        y = next((s for s in show if s[0] == x[0] and s is not x), show[0])
        la, lb = [meant(z[3]).decode('latin-1').split('\n') for z in (y, x)]
        d = next((n for n, (p, q) in enumerate(zip(la, lb)) if p != q), min(len(la), len(lb)) - 1)
        c.violation('%s/%s/%s' % (x[0], x[1][:3], h[0] if isinstance(h[0], str) else h[-1][0]),
                    '%s: %s %s ends with %s, %s with %s; line %d: %r and %r' % (
                        h, x[0], x[1], x[2], y[1], y[2], d + 1, lb[d][:200], la[d][:200]),
                    {'program.cmm': t, 'options.txt': ' '.join(o), 'one.txt': y[3], 'other.txt': x[3]})
    full = sum(e['full'] for t in traces for e in t['ev'])
    nat = sum(e['body'] == 'tac' for t in traces for e in t['ev'])
    c.add(texts=len(texts), runs=sum(len(t['ev']) for t in traces), native_runs=nat, native_out_of_memory=full,
          own_sources=len(own), accepted=sum(t['ev'][0]['st'] == '0' for t in traces))
    c.sample('own sources: %s' % ' '.join(u for u, _ in own))
    c.sample('edited program: %s' % json.dumps(next(h for h, t, *_ in texts if h[0][0] == 'base')))
    return 'model_checking'
