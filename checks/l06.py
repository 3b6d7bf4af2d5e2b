"""Run-time routines of TaC (crt0.s, conversions and random numbers of stdlib.cmm) on the TaC machine, recorded and validated
by TLC against spec/Arith.tla; the instructions of the simulator against spec/TaC.tla."""
import ctypes, json, os, random
import tacsim, tlib, trace
from tlib import Fault, Exit, TOP

LIM = [0, 1, 2, 3, 9, 10, 15, 16, 99, 100, 127, 128, 255, 256, 257, 999, 1000, 1023, 4095, 4096, 9999, 10000, 32766, 32767, 32768, 32769, 40000,
       65533, 65534, 65535]
MAIN = '''#include <stdio.hmm>
#include <stdlib.hmm>
#include <crt0.hmm>
public void tell(int k, int v, char[] s);
int sum(char[] s, ...) {
  int[] a = _args();
  tell(3, a[1], null);
  tell(3, a[2], null);
  tell(3, a[3], null);
  return a[1];
}
public int main(int argc, char[][] argv) {
  tell(0, argc, null);
  for (int i=0; i<argc; i=i+1) tell(1, i, argv[i]);
  for (int i=0; environ[i]!=null; i=i+1) tell(2, i, environ[i]);
  printf("%d", argc);
  fprintf(stderr, "e");
  sum("", argc, 12, -3);
  return argc*7-10;
}
'''
TELL = '''_tell
        ld      g0,#100
        push    g3
        ld      g1,4,sp
        ld      g2,6,sp
        ld      g3,8,sp
        svc     g0,g0
        pop     g3
        ret
'''


def sg(x):
    return x - 65536 if x & 0x8000 else x


def word(r):
    k = r.random()
    return r.choice(LIM) if k < .5 else r.randrange(65536) if k < .9 else 1 << r.randrange(16)


class Rec:
    def __init__(self, m, seed):
        self.m = m
        self.r = random.Random(seed)
        m.reset(seed)
        self.ev = []
        self.seen = []
        m.kernel = self.kernel
        m.io = self.io
        self.at = [m.end + 100 + 6 * k for k in range(3)]
        self.inval = 0

    def kernel(self, no, a, b, c):
        if no == 1:
            raise Exit(sg(a))
        return -1

    def io(self, op, p, v):
        self.seen.append([p, v if op == 'out' else self.inval])
        return self.inval

    def run(self, f, args, e, keep=()):
        """call f; e gets r, st and stray: anything but the ranges of keep changed"""
        m = self.m
        lo, hi = m.im['dbase'], m.R[14]
        top = m.get(hi, TOP - hi)
        before = m.get(lo, hi - tlib.SLACK - lo)
        try:
            e['r'] = m.start(f, args)
            e['st'] = 'ret'
        except Exit as x:
            e.update(r=x.args[0], st='exit')
        except Fault as x:
            e.update(r=-99999, st='fault: %s' % x)
        after = bytearray(m.get(lo, hi - tlib.SLACK - lo))
        if e['st'] == 'ret':
            for a, k in keep:
                after[a - lo:a - lo + k] = before[a - lo:a - lo + k]
        e['stray'] = e['st'] == 'ret' and (bytes(after) != before or m.get(hi, TOP - hi) != top)
        self.ev.append(e)
        return e

    def cells(self):
        return [[self.m.word(a), self.m.word(a + 2)] for a in self.at]

    def set(self, v):
        for a, (x, y) in zip(self.at, v):
            self.m.word(a, x)
            self.m.word(a + 2, y)
        self.ev.append(dict(k='set', m=v))

    def long(self, f, d, s, w):
        e = dict(k='long', f=f, d=d + 1, s=s + 1, w=w, a=self.at[d])
        self.run('__' + f, [self.at[d], self.at[s] if f in ('add32', 'sub32') else w], e, [(self.at[d], 4)])
        e['m'] = self.cells()

    def fun(self, f, a, b=0, s=()):
        e = dict(k='fun', f=f, a=a, b=b, s=list(s))
        if s or f in ('atoi', 'htoi'):
            p = self.m.end + 200
            self.m.put(p, bytes(s) + b'\0')
            self.run('_' + f, [p], e)
        else:
            self.run('__' + f, [a, b] if f in ('uCmp', 'aCmp', 'addrAdd') else [a], e)


def arithmetic(c, m, r, add):
    x = Rec(m, 1)
    for f in ('add32', 'sub32', 'mul32', 'div32', 'mod32'):
        for _ in range(c.q(700, 20000)):
            d, s = r.randrange(3), r.randrange(3)
            w = word(r)
            v = [[word(r), word(r)] for _ in range(3)]
            if f in ('div32', 'mod32'):
                w = w or 1
                if r.random() < .3:       # around multiples of the divisor
                    q = r.choice([word(r), word(r) << 16 | word(r)])
                    t = (q * w + r.choice([-1, 0, 1, w - 1])) & 0xffffffff
                    v[d] = [t >> 16, t & 65535]
            if f == 'mul32':
                v[d][0] = 0
            x.set(v)
            x.long(f, d, s, w)
            if f in ('add32', 'sub32') and r.random() < .5:
                x.long(r.choice(['add32', 'sub32']), r.randrange(3), r.randrange(3), 0)
    add(x.ev)


def functions(c, m, r, add):
    x = Rec(m, 2)
    for f in ('uCmp', 'aCmp', 'addrAdd'):
        for a in LIM:
            for b in LIM:
                x.fun(f, a, b)
        for _ in range(c.q(100, 3000)):
            x.fun(f, word(r), word(r))
    for f in ('aToI', 'iToA', 'aToA'):
        for a in LIM:
            x.fun(f, a)
    for v in LIM + [12345, 54321] + [r.randrange(65536) for _ in range(c.q(100, 1000))]:
        x.fun('atoi', 0, s=b'%d' % v)
        x.fun('atoi', 0, s=b'0%d' % v)
        for t in (b'%x', b'%X', b'0%x', b'%xg', b'%X 1', b'%xG', b'%x/', b'%x:', b'%x@', b'%x`'):
            x.fun('htoi', 0, s=t % v)
    for v in (65536, 99999, 655360, 123456789):
        x.fun('atoi', 0, s=b'%d' % v)
        x.fun('htoi', 0, s=b'%x' % v)
    for s in (b'', b'g', b'-1', b'xyz'):
        x.fun('htoi', 0, s=s)
    x.fun('atoi', 0, s=b'')
    for p in LIM:
        v = word(r)
        x.seen, x.inval = [], v
        e = dict(k='fun', f='in', a=p, b=v, s=[])
        x.run('__in', [p], e)
        e['stray'] = e['stray'] or x.seen != [[p, v]]
        x.seen = []
        e = dict(k='out', a=p, b=v)
        x.run('__out', [p, v], e)
        e['seen'] = x.seen
    # __sp is the stack pointer inside the call
    for k in range(3):
        sp = m.R[14]
        m.R[14] = sp - 2 * k
        x.run('__sp', [], dict(k='fun', f='sp', a=m.R[14] - 2, b=0, s=[]))
        m.R[14] = sp
    add(x.ev)


def randoms(c, m, r, add):
    x = Rec(m, 3)
    g = m.sym('__alcAddr')
    keep = [(m.im['dbase'], m.end - m.im['dbase'])]       # the state of the generator is somewhere in the data
    for _ in range(20):
        x.run('_rand', [], dict(k='rand'), keep)
    for s in LIM + [r.randrange(65536) for _ in range(c.q(10, 100))]:
        x.run('_srand', [s], dict(k='srand', a=s), keep)
        for _ in range(r.choice([1, 20, 40])):
            x.run('_rand', [], dict(k='rand'), keep)
    if c.tier != 'quick':
        for _ in range(65540):
            m.start('_rand')
            x.ev.append(dict(k='rand', r=m.R[1], stray=False))
    add(x.ev, 3000 if c.tier == 'quick' else 10 ** 6)


def stack(c, m, r, add):
    for heap in (m.end, m.end + 1000, 0x9000, 0xc000, 0xe000):
        for d in list(range(-20, 40, 2)) + [-1000, 100, 1000, 5000]:
            x = Rec(m, heap + d)
            sp = heap + d + 2
            if sp < m.end + 40 or sp > TOP - 10:
                continue
            m.word(m.sym('__alcAddr'), heap)
            m.R[14] = sp
            hi, low = m.get(sp, 10), m.get(m.im['dbase'], m.end - m.im['dbase'])
            e = dict(k='stk', a=heap, b=sp - 2)
            try:
                e.update(st='ret', r=m.start('__stkChk'))
            except Exit as y:
                e.update(st='exit', r=y.args[0])
            except Fault as y:
                e.update(st='fault: %s' % y, r=0)
            e['stray'] = m.get(sp, 10) != hi or m.get(m.im['dbase'], m.end - m.im['dbase']) != low
            add([e])


def starts(c, m, r, add):
    for k in range(c.q(12, 100)):
        m.reset(k)
        args = [b'prog%d' % k] + [bytes(r.randint(33, 255) for _ in range(r.randint(0, 9))) for _ in range(r.choice([0, 0, 1, 2, 6]))]
        env = [b'V%d=' % j + bytes(r.randint(33, 255) for _ in range(r.randint(0, 9))) for j in range(r.choice([0, 1, 2, 5]))]
        p = TOP
        at = {}
        for key, l in (('e', env), ('a', args)):
            for j, s in enumerate(l):
                p -= len(s) + 1
                at[key, j] = p
                m.put(p, s + b'\0')
        p &= ~1
        vec = {}
        for key, l in (('e', env), ('a', args)):
            p -= 2
            m.word(p, 0)
            for j in reversed(range(len(l))):
                p -= 2
                m.word(p, at[key, j])
            vec[key] = p
        for w in (vec['e'], vec['a'], len(args)):
            p -= 2
            m.word(p, w)
        m.R[14] = p
        told, out = [], []

        def kernel(no, a, b, d):
            if no == 1:
                raise Exit(sg(a))
            if no == 15:
                out.append(m.get(a, b))
                return b
            if no == 100:
                told.append((a, b, m.str(d) if a in (1, 2) else b''))
            return 0
        m.kernel = kernel
        n = len(args)
        e = dict(k='start', arg0=[list(s) for s in args], env0=[list(s) for s in env], out0=[101] + list(b'%d' % n), r0=n * 7 - 10)
        e['argv'] = e['env'] = e['out'] = []
        e['r'] = 0
        m.pc.value = 1
        m.steps.value = 0
        try:
            m.go()
            e['st'] = 'ret'
        except Exit as x:
            e.update(st='exit', r=x.args[0])
        except Fault as x:
            e['st'] = 'fault: %s' % x
        e['argv'] = [list(s) for t, i, s in told if t == 1]
        e['env'] = [list(s) for t, i, s in told if t == 2]
        o = list(b''.join(out))
        e['out'] = sorted(o, key=lambda v: v != 101)
        va = [b - 65536 if b > 32767 else b for t, b, s in told if t == 3]
        add([e] + [dict(k='args', a=v, r=w, stray=len(va) != 3) for v, w in zip([n, 12, -3], va + [None] * 3)])


def machine(c, m, r, add):
    l = m.l
    ev = []
    res = ctypes.c_int()
    for o in tacsim.OPS[2:16]:
        for k in range(c.q(150, 4000)):
            a, b = word(r), word(r)
            if o in ('DIV', 'MOD') and b == 0:
                continue
            if o.startswith('SH') and r.random() < .7:
                b = r.randrange(16)
            l.alu(tacsim.ON[o], a, b, ctypes.byref(res))
            ev.append(dict(k='alu', o=o, a=a, b=b, r=res.value, fl=[bool(x.value) for x in m.F]))
    for o in tacsim.OPS[16:29]:
        for k in range(16):
            fl = [bool(k >> i & 1) for i in range(4)]
            for x, v in zip(m.F, fl):
                x.value = int(v)
            ev.append(dict(k='jump', o=o, fl=fl, r=bool(l.taken(tacsim.ON[o]))))
    add(ev)


def check(c):
    r = random.Random('l06/%d' % c.seed)
    b = c.built()
    ms = []
    p = os.path.join(c.work, 'main.cmm')
    with open(p, 'w') as f:
        f.write(MAIN)
    so = tacsim.simlib(c.work)
    for host, o in c.q((('src', ['-O']), ('src--', ['-O0'])), [(h, [x]) for h in ('src', 'src--') for x in ('-O0', '-O', '-O1')]):
        t = b.tool('c--', host)
        im = tacsim.library(t, o, extra=[('main', tacsim.compile_(t, p, o)), ('tell', TELL)])
        m = tacsim.Machine(so, im)
        m.name = '%s c-- %s' % (host, ' '.join(o))
        ms.append(m)
    traces, name = [], {}
    for m in ms:
        for g in (arithmetic, functions, randoms, stack, starts) + ((machine,) if m is ms[0] else ()):
            def add(evs, size=500):
                i = 0
                while i < len(evs):
                    j = i + size
                    while j < len(evs) and evs[j]['k'] in ('long', 'rand'):
                        j += 1
                    name[len(traces)] = m.name
                    traces.append(dict(id=len(traces), ev=evs[i:j]))
                    i = j
            g(c, m, r, add)
    bad = trace.validate(c, 'Arith', traces)
    for i, k in sorted(bad.items()):
        t = traces[i]
        e = t['ev'][k] if 0 <= k < len(t['ev']) else {}
        c.violation('%s/%s' % (name[i], e.get('f', e.get('k'))), '%s: %s' % (name[i], json.dumps(e)[:600]), {'history.json': json.dumps(t)})
    c.sample(json.dumps(traces[0]['ev'][:4]))
    c.sample(json.dumps(traces[-1]['ev'][:3]))
    tlib.coverage(c, ms, ('crt0.s',))
    c.assumptions += ['the product of _mul32 is decided for 16-bit values of the destination only (it has no documentation)',
                      'atoi is decided for strings of decimal digits only', 'the stack check is not decided for exactly 10 bytes']
    return 'model_checking'
