"""The heap of the TaC library: histories of malloc, calloc, the typed variants and free are run on the TaC machine, recorded,
and validated by TLC against spec/Heap.tla."""
import itertools, json, random, zlib
import tlib, trace
from tlib import Fault, Exit, TOP

FN = {'malloc': 1, 'iMalloc': 2, 'cMalloc': 1, 'bMalloc': 1, 'rMalloc': 2}
USR = '_usr\tDW\t1234,5678,4321\n_usb\tWS\t8\n'


class Rec:
    def __init__(self, m, seed, heap):
        self.m = m
        self.r = random.Random(seed)
        self.sp = (m.end + heap) & ~1 if heap else TOP - 1024
        m.reset(seed, self.sp)
        m.start('__stdlibInit')
        self.lo, self.hi = m.end, self.sp - 10
        self.user = m.get(m.sym('_usr'), 22)
        self.stack = m.get(self.sp, 200)
        self.live = {}                  # address -> (size, contents)
        self.order = []
        self.ev = []
        self.dead = False
        self.magic = set()

    def dig(self, x):
        return zlib.crc32(x) & 0x7fffffff

    def look(self, e):
        m = self.m
        e['dig'] = [[a, self.dig(m.get(a, n))] for a, n in self.live.items()]
        e['stray'] = m.get(m.sym('_usr'), 22) != self.user or m.get(self.sp, 200) != self.stack
        self.ev.append(e)

    def alloc(self, f, c, s=None):
        m = self.m
        args = [c] if s is None else [c, s]
        e = dict(op='alloc', c=c, s=FN.get(f) if s is None else s, zero=f == 'calloc', clear=False, d=0, a=0, f=f, sp=self.sp)
        try:
            a = m.start('_' + f, args)
            n = e['c'] * e['s']
            e.update(st='ret', r=a)
            self.magic.add(m.word(a - 4))
            if a + n > self.sp or a in self.live:
                self.dead = True
            else:
                e['clear'] = not any(m.get(a, n))
                self.look(e)
                x = bytes(self.r.randrange(256) for _ in range(n))
                if n >= 4 and self.r.random() < .3:      # contents that look like control data
                    w = [m.word(a - 4), a - 4, 4, 0, m.end, n]
                    x = b''.join(bytes([v >> 8 & 255, v & 255]) for v in (self.r.choice(w) for _ in range(n // 2))) + x[:n % 2]
                m.put(a, x)
                e['d'] = self.dig(x)
                self.live[a] = n
                self.order.append(a)
                return
        except Exit as x:
            e.update(st='exit', r=x.args[0])
            self.dead = True
        except Fault as x:
            e.update(st='fault: %s' % x, r=0)
            self.dead = True
        self.look(e)

    def free(self, a):
        m = self.m
        e = dict(op='free', a=a, c=0, s=0, zero=False, clear=False, d=0, f='free', sp=self.sp)
        try:
            m.start('_free', [a])
            e.update(st='ret', r=0)
            self.live.pop(a, None)
            if a in self.order:
                self.order.remove(a)
        except Exit as x:
            e.update(st='exit', r=x.args[0])
            self.dead = True
        except Fault as x:
            e.update(st='fault: %s' % x, r=0)
            self.dead = True
        self.look(e)

    def probe(self):
        """the stack check at the end, with the stack at some place near the blocks"""
        m = self.m
        ends = [a + n for a, n in self.live.items()] + [self.lo]
        v = (max(ends) + self.r.choice([-40, -10, 0, 2, 8, 14, 30, 50, 100, 500])) & ~1
        v = min(max(v, self.lo + 4), self.sp)
        e = dict(op='probe', a=v - 2, c=0, s=0, zero=False, clear=False, d=0, f='stkChk', sp=self.sp)
        save = m.get(v - 80, 80)
        m.R[14] = v
        try:
            m.start('__stkChk')
            e.update(st='ret', r=0)
        except Exit as x:
            e.update(st='exit', r=x.args[0])
        except Fault as x:
            e.update(st='fault: %s' % x, r=0)
        m.put(v - 80, save)
        self.look(e)

    def step(self, op):
        k = op[0]
        if k == 'a':
            self.alloc(op[1], *op[2:])
        elif k == 'f' and self.order:
            i = {'old': 0, 'new': -1, 'mid': len(self.order) // 2, 'any': self.r.randrange(len(self.order))}[op[1]]
            self.freed = self.order[i]
            self.free(self.freed)
        elif k == 'again' and getattr(self, 'freed', None) and self.freed not in self.live and self.inside(self.freed):
            self.free(self.freed)
        elif k == 'bad':
            c = [a + d for a, n in self.live.items() for d in (2, -2, 4) if self.plain(a + d)]
            c += [a for a in (self.lo + 4, self.hi - 20, self.m.sym('_usb') + 4) if self.plain(a)]
            if c:
                self.free(self.r.choice(c))
        return not self.dead

    def inside(self, a):
        """a freed block whose place no live block has taken, not even in part"""
        return all(not b - 4 <= a < b + n + 8 for b, n in self.live.items())

    def plain(self, a):
        """an address that is not a block and does not look like one"""
        return a not in self.live and a % 2 == 0 and self.m.word(a - 4) not in self.magic


def sg(x):
    return x - 65536 if x & 0x8000 else x


def plans(c, r):
    """(heap size, operations)"""
    ops = [('a', 'malloc', 10), ('a', 'malloc', 3), ('f', 'old'), ('f', 'new'), ('f', 'mid')]
    for n in range(1, c.q(6, 8)):
        for p in itertools.product(ops, repeat=n):
            if p[0][0] == 'a' and p[-1] == ops[0]:
                yield 0, list(p) + [('again',)]
    for f, k in FN.items():
        for v in (0, 1, 2, 100, 8191, 8192, 16383, 16384, 32766, 32767, 32768, 32769, 40000, 49152, 65000, 65526, 65527, 65528, 65529, 65530,
                  65531, 65532, 65533, 65534, 65535):
            yield 0, [('a', f, 20), ('a', f, v), ('a', f, 4)]
            yield 0, [('a', f, v)]
    for v, w in itertools.product((0, 1, 2, 3, 128, 255, 256, 257, 16384, 21846, 32768, 65535), repeat=2):
        yield 0, [('a', 'malloc', 20), ('f', 'old'), ('a', 'calloc', v, w), ('a', 'malloc', 4)]
    # up to the last byte
    for k in range(0, 40):
        yield 200, [('a', 'malloc', 100), ('a', 'malloc', 40 + k), ('a', 'malloc', 0)]
        yield 300, [('a', 'malloc', 100), ('a', 'malloc', 60), ('f', 'old'), ('a', 'malloc', 80 + k), ('a', 'malloc', 10)]
        yield 300, [('a', 'malloc', 20), ('a', 'malloc', 20), ('a', 'malloc', 20), ('f', 'old'), ('f', 'old'), ('a', 'malloc', 26 + k), ('f', 'old')]
    for i in range(c.q(500, 6000)):
        sz = r.choice([(0, 1, 2, 3, 4, 5, 6, 7, 8), (10, 11, 12, 20, 30), (1, 50, 100, 200), (0, 2, 4, 16, 300)])
        heap = r.choice([0, 150, 300, 500, 1000, 3000])
        p = []
        for _ in range(r.choice([5, 10, 30, 80])):
            if r.random() < r.choice([.35, .5, .65]):
                p.append(('f', r.choice(['old', 'new', 'mid', 'any', 'any'])))
            else:
                f = r.choice(list(FN) + ['malloc', 'calloc'])
                p.append(('a', f, r.choice(sz)) if f != 'calloc' else ('a', f, r.choice(sz), r.choice([0, 1, 2, 3])))
        if r.random() < .5:
            p.append(r.choice([('again',), ('bad',), ('bad',), ('a', 'malloc', r.choice([60000, 3000, 400, 65535]))]))
        yield heap, p


def check(c):
    r = random.Random('l01/%d' % c.seed)
    ms = tlib.machines(c, extra=[('user', USR)]) + tlib.machines(c, [('src', ['-O'])], extra=[('user', USR)], dbase=0x1000)
    ms[-1].name += ' (large heap)'
    traces, name = [], {}
    for m in ms:
        def kernel(no, a, b, d):
            if no == 1:
                raise Exit(sg(a))
            return -1
        m.kernel = kernel
        for k, (heap, p) in enumerate(plans(c, r)):
            x = Rec(m, k, heap)
            for op in p:
                if not x.step(op):
                    break
            if not x.dead:
                x.probe()
            name[len(traces)] = m.name
            traces.append(dict(id=len(traces), ev=x.ev, lo=x.lo, sp=x.sp))
    bad = trace.validate(c, 'Heap', traces)
    for i, k in sorted(bad.items()):
        t = traces[i]
        e = t['ev'][k] if 0 <= k < len(t['ev']) else None
        c.violation('%s/%s' % (name[i], ' '.join(x['f'] for x in t['ev'][:k + 1][-3:])), '%s, call %d: %s(%s) %s %s' % (
            name[i], k + 1, e and e['f'], e and [e['c'], e['s'], e['a']], e and e['st'], e and e['r']), {'history.json': json.dumps(t)})
    c.sample(json.dumps(traces[60]))
    c.sample(json.dumps(traces[-1]['ev'][:3]))
    tlib.coverage(c, ms, ('stdlib.cmm',))
    c.assumptions += ['the control data of a block takes at most 32 bytes when a request fails',
                      'a bad address is one whose block header does not hold the value of a live block (a program can forge one)']
    return 'model_checking'
