"""Environment and paths of the TaC library: histories of calls recorded from the TaC machine, validated by TLC against spec/Env.tla."""
import itertools, json, random
import tlib, trace
from tlib import Fault, Exit, TOP
from checks.l01 import sg

USR = '_ub\tWS\t1024\n_ue\tDW\t1\n'
DIRS = [b'/usr', b'/usr/bin', b'/usr/bin/x', b'/home', b'/home/a.b', b'/home/...', b'/home/.x', b'/u', b'/..z', b'/usr/long-directory-name-of-some-length',
        b'/usr/long-directory-name-of-some-length/with-another-one-in-it']
FILES = [b'/file', b'/usr/f', b'/usr/bin/g.c', b'/home/.x/h']


class Fs:
    """what stat says about a path: directories and files, nothing else"""
    def __init__(self):
        self.dirs = [tuple(d.split(b'/')[1:]) for d in DIRS]
        self.files = [tuple(d.split(b'/')[1:]) for d in FILES]

    def spec(self):
        return [[list(x) for x in d] for d in self.dirs]

    def attr(self, path):
        at = ()
        path = path.rstrip(b'/')          # a slash at the end says nothing
        for x in path.split(b'/'):
            if x in (b'', b'.'):
                if at and at not in self.dirs:
                    return None
                continue
            if at and at not in self.dirs:
                return None
            at = at[:-1] if x == b'..' else at + (x,)
        if at == () or at in self.dirs:
            return 0x10
        return 0x20 if at in self.files else None


class Rec:
    def __init__(self, m, r, envp, heap=0):
        self.m, self.r, self.fs = m, r, Fs()
        m.kernel = self.kernel
        self.sp = (m.end + heap) & ~1 if heap else TOP - 1024
        m.reset(r.randrange(1 << 30), self.sp)
        m.start('__stdlibInit')
        m.start('__stdioInit')
        self.ub = m.sym('_ub')
        self.ev, self.dead = [], False
        self.begin()
        ps = [self.put(s) for s in envp]
        a = self.at
        for i, p in enumerate(ps + [0]):
            m.word(a + 2 * i, p)
        self.at = a + 2 * len(ps) + 2
        self.call('init', [a], '__environInit')

    def kernel(self, no, a, b, d):
        if no == 1:
            raise Exit(sg(a))
        if no == 13:
            x = self.fs.attr(self.m.str(a))
            if x is None:
                return -2
            for i, w in enumerate((x, 7, 0, 9)):
                self.m.word(b + 2 * i, w)
            return 0
        return -21

    def begin(self):
        self.m.put(self.ub, bytes([0xA5]) * 1026)
        self.at = self.ub + 2
        self.area = (0, 0)

    def put(self, x):
        a = self.at
        self.m.put(a, bytes(x) + b'\0')
        self.at += (len(x) + 4) & ~1
        return a

    def call(self, f, args, fn=None, **kw):
        m = self.m
        e = dict(f=f, v=0, null=False, str=[], name=[], value=[], ow=False, path=[], size=0, env=[], errno=0, stray=False, st='ret')
        e.update({k: list(v) if isinstance(v, bytes) else v for k, v in kw.items()})
        before = m.get(self.ub, 1026)
        self.ev.append(e)
        m.word(m.sym('_errno'), 0)
        try:
            v = m.start(fn or '_' + f, args)
            after = bytearray(m.get(self.ub, 1026))
            a, k = self.area
            if k:
                after[a - self.ub:a - self.ub + k] = before[a - self.ub:a - self.ub + k]
            e['stray'] = bytes(after) != before
            e['errno'] = sg(m.word(m.sym('_errno')))
            if f in ('getEnv', 'getWd'):
                e['null'] = v == 0
                e['str'] = list(m.str(v)) if v else []
                self.ptr = v
            elif f != 'init':
                e['v'] = sg(v)
            if f == 'absPath' and not v:
                t = m.get(a, k)
                e['str'] = list(t[:t.find(b'\0')] if b'\0' in t else t)
            a = m.word(m.sym('_environ'))
            while m.word(a) and len(e['env']) < 200:
                e['env'].append(list(m.str(m.word(a))))
                a += 2
        except Exit as x:
            e['st'], self.dead = 'exit %d' % x.args[0], True
        except Fault as x:
            e['st'], self.dead = 'fault: %s' % x, True
        return e

    def do(self, op):
        if self.dead:
            return
        self.begin()
        f = op[0]
        if f == 'putEnv':
            self.call(f, [self.put(op[1])], str=op[1])
        elif f == 'setEnv':
            self.call(f, [self.put(op[1]), self.put(op[2]), int(op[3])], name=op[1], value=op[2], ow=bool(op[3]))
        elif f == 'alias':              # the value is (the end of) the value of a variable
            e = self.call('getEnv', [self.put(op[1])], name=op[1])
            if not self.dead and not e['null']:
                k = min(op[2], len(e['str']))
                self.begin()
                if op[4]:
                    self.call('setEnv', [self.put(op[3]), self.ptr + k, 1], name=op[3], value=bytes(e['str'][k:]), ow=True)
                else:
                    self.call('putEnv', [self.ptr - len(op[1]) - 1], str=op[1] + b'=' + bytes(e['str']))
        elif f in ('getEnv', 'unsetEnv'):
            self.call(f, [self.put(op[1])], name=op[1])
        elif f == 'getWd':
            self.call(f, [])
        elif f == 'absPath':
            p = self.put(op[1])
            self.at += 2
            self.area = (self.at, op[2])
            self.call(f, [p, self.at, op[2]], path=op[1], size=op[2])
        elif f == 'chDir':
            self.call(f, [self.put(op[1])], path=op[1])


NAMES = [b'A', b'AB', b'ABC', b'B', b'PWD', b'PW', b'P', b'a', b'LONGNAME_1', b'LONGNAME_2', b'\xff\x80']
PARTS = [b'', b'.', b'..', b'...', b'usr', b'bin', b'x', b'home', b'a.b', b'.x', b'u', b'f', b'g.c', b'file', b'new', b'..z', b'.y', b'x.',
         b'long-directory-name-of-some-length', b'with-another-one-in-it']


def path(r, wd=None):
    n = r.choice([0, 1, 1, 2, 2, 3, 4, 6])
    p = b'/'.join(r.choice(PARTS) for _ in range(n))
    return r.choice([b'', b'/', b'/', b'//', b'./']) + p + r.choice([b'', b'', b'/', b'/.', b'/..'])


def value(r):
    return bytes(r.choice(b'xyz=/') for _ in range(r.choice([0, 0, 1, 2, 3, 5, 12, 40])))


def paths(c):
    """all short paths over the critical characters"""
    for n in range(0, c.q(6, 8)):
        for t in itertools.product(b'/.u', repeat=n):
            yield bytes(t)


def check(c):
    r = random.Random('l05/%d' % c.seed)
    ms = tlib.machines(c, extra=[('user', USR)])
    traces, name = [], {}

    def take(m, x, envp):
        name[len(traces)] = m.name
        traces.append(dict(id=len(traces), ev=x.ev, envp=[list(e) for e in envp], dirs=x.fs.spec()))

    def run(m, envp, ops, heap=0):
        x = Rec(m, random.Random(r.randrange(1 << 40)), envp, heap)
        for op in ops:
            x.do(op)
        take(m, x, envp)

    def spell(d):
        return [list(x) for x in d]
    for m in ms:
        # all histories over two names, one the beginning of the other
        ops = [('setEnv', b'A', b'1', 1), ('setEnv', b'A', b'22', 0), ('setEnv', b'AB', b'', 1), ('putEnv', b'AB=3'), ('unsetEnv', b'A'), ('unsetEnv', b'AB')]
        for envp in ([], [b'AB=0'], [b'A=0', b'AB=x=y']):
            for p in itertools.product(ops, repeat=c.q(3, 4)):
                run(m, envp, list(p) + [('getEnv', b'A'), ('getEnv', b'AB'), ('getEnv', b'ABC'), ('getEnv', b'')])
        for s in (b'', b'=', b'=x', b'A', b'A=', b'A==', b'A=x=y', b'ABC=1', b'AB', b'a=q'):
            for envp in ([], [b'A=0', b'AB=1', b'ABC=2']):
                run(m, envp, [('putEnv', s), ('getEnv', s), ('setEnv', s, b'v', 1), ('setEnv', s, b'w', 0), ('unsetEnv', s), ('getEnv', s), ('getWd',)])
        # growing and shrinking
        for k in range(1, c.q(8, 30)):
            ns = [b'V%d' % i for i in range(k)]
            r.shuffle(ns)
            run(m, [n + b'=0' for n in ns[:k // 2]], [('setEnv', n, b'val' + n, 1) for n in ns] + [('unsetEnv', n) for n in r.sample(ns, k // 2)]
                + [('setEnv', n, b'new', r.randrange(2)) for n in ns] + [('getEnv', n) for n in ns])
        # values that are parts of variables
        for a, b in itertools.product((b'A', b'AB', b'PWD'), repeat=2):
            for k in (0, 1, 3, 20):
                for v in (b'', b'/u', b'abcdef', b'a=b=c'):
                    run(m, [b'A=zz', b'AB=' + v], [('setEnv', a, v, 1), ('alias', a, k, b, 1), ('alias', a, k, b, 0), ('getEnv', b'A'), ('getEnv', b'AB')])
        # nothing runs out
        for h in (700, 1000):
            n = c.q(150, 600)
            run(m, [b'A=0', b'PWD=/u'], [r.choice([('setEnv', r.choice(NAMES[:3]), bytes(r.choice(b'xy') for _ in range(r.randrange(9))), r.randrange(2)),
                                                   ('unsetEnv', r.choice(NAMES[:3])), ('getEnv', r.choice(NAMES[:3])), ('chDir', r.choice([b'/u', b'/usr', b'/nix', b'..'])),
                                                   ('absPath', b'usr/..', 80)]) for _ in range(n)], h)
        run(m, [b'A=0'], [('setEnv', b'V%d' % i, b'x', 1) for i in range(60)], 3000)
        # paths
        for wd in (None, b'/', b'/usr', b'/home/a.b', b'/usr/long-directory-name-of-some-length/with-another-one-in-it', b'/gone'):
            envp = [] if wd is None else [b'PWD=' + wd]
            some = [p for p in paths(c) if wd in (None, b'/usr') and c.tier == 'thorough' or len(p) < 4 or (p[:1] == b'/') == (wd is None) and r.random() < c.q(.25, .5)]
            some += [f + e for f in FILES for e in (b'', b'/', b'/x', b'/..', b'/.', b'/../x')]
            some += [path(r) for _ in range(c.q(60, 1500))]
            for i in range(0, len(some), 40):
                run(m, envp, [('absPath', p, r.choice([100, 80, 80, 2, 3, len(p) + r.randrange(6) + 1, len(p) + len(wd or b'') + r.randrange(6) + 1, r.randrange(2, 90)]))
                              for p in some[i:i + 40]])
            base = b'/usr/long-directory-name-of-some-length'
            for k in range(60, 95):
                p = (base + b'/' + b'n' * 100)[:k]
                run(m, envp, [('absPath', p, 80), ('absPath', p[1:], 80), ('absPath', p, k), ('absPath', p, k + 1), ('absPath', p, k + 2), ('absPath', p, k + 3), ('chDir', p)])
        for _ in range(c.q(120, 2500)):
            envp = [n + b'=' + value(r) for n in r.sample(NAMES, r.randrange(4)) if n != b'PWD']
            l = []
            for _ in range(r.choice([5, 15, 40])):
                f = r.choice(['setEnv', 'setEnv', 'putEnv', 'unsetEnv', 'getEnv', 'getWd', 'absPath', 'chDir', 'chDir', 'alias'])
                nm = r.choice(NAMES)
                if nm == b'PWD' and f in ('setEnv', 'putEnv', 'alias'):
                    nm = b'Q'
                l.append({'setEnv': ('setEnv', nm, value(r), r.randrange(2)), 'putEnv': ('putEnv', nm + b'=' + value(r)), 'unsetEnv': ('unsetEnv', nm),
                          'getEnv': ('getEnv', nm), 'getWd': ('getWd',), 'absPath': ('absPath', path(r), r.choice([80, 100, r.randrange(2, 60)])), 'chDir': ('chDir', path(r)),
                          'alias': ('alias', nm, r.randrange(5), r.choice([nm, b'A']), r.randrange(2))}[f])
            run(m, envp, l)
    for t in traces:
        t['dirs'] = [spell(d) for d in t['dirs']]
    bad = trace.validate(c, 'Env', traces)
    show = lambda x: bytes(x).decode('latin1')
    for i, k in sorted(bad.items()):
        e = traces[i]['ev'][k] if 0 <= k < len(traces[i]['ev']) else {}
        c.violation('%s/%s/%s' % (name[i], e.get('f'), e.get('st')), '%s: call %d: %s' % (
            name[i], k, {a: show(v) if a in ('str', 'name', 'value', 'path') else [show(s) for s in v] if a == 'env' else v for a, v in e.items()}),
            {'history.json': json.dumps(traces[i])})
    c.sample(json.dumps(traces[7])[:3000])
    c.sample(json.dumps(traces[-1])[:3000])
    tlib.coverage(c, ms, ('environ.cmm',))
    c.assumptions += ['the variable PWD, when there, is an absolute path; names and values are not null; a buffer has at least two bytes',
                      'the kernel answers stat for a path by walking through its directories']
    return 'model_checking'
