"""String and character functions of the library on the TaC machine: histories of calls are recorded and every call is
validated by TLC against spec/Str.tla."""
import json, random
import tlib, trace
from tlib import Fault, Exit, TOP

TWO = ('strCpy', 'strCat', 'strCmp', 'strStr')
TWON = ('strNcpy', 'strNcat', 'strNcmp')
CT = ('isAlpha', 'isDigit', 'isAlnum', 'isPrint', 'isLower', 'isUpper', 'isXdigit', 'isSpace', 'toLower', 'toUpper')
WR = ('strCpy', 'strNcpy', 'strCat', 'strNcat')


def sg(x):
    return x - 65536 if x & 0x8000 else x


def strs(alpha, n):
    res = [()]
    for k in range(n):
        res += [s + (a,) for s in res if len(s) == k for a in alpha]
    return res


class Rec:
    """a program with some arrays that calls functions one after the other"""
    def __init__(self, m, bufs, seed):
        self.m, self.seed = m, seed
        m.reset(seed)
        self.bufs = [bytearray(b) for b in bufs]
        a = m.end + 40
        self.at = []
        for k, b in enumerate(bufs):
            a += 16 + (k * 7 + seed) % 3
            self.at.append(a)
            m.put(a, b)
            a += len(b)
        self.init = [list(b) for b in bufs]
        self.ev = []

    def call(self, f, p=None, q=None, n=None):
        m = self.m
        args = [self.at[p[0]] + p[1]] if p else []
        args += [self.at[q[0]] + q[1]] if q else []
        args += [n] if n is not None else []
        lo, hi = m.im['dbase'], TOP - 1024 - tlib.SLACK
        before = m.get(lo, hi - lo)
        e = dict(f=f, p=[p[0] + 1, p[1]] if p else [1, 0], q=[q[0] + 1, q[1]] if q else [1, 0], n=n or 0, stray=False)
        w = p[0] if p else 0
        try:
            r = m.start('_' + f, args)
        except Fault as x:
            e.update(r=str(x), w=w + 1, b=[], stray=True)
            self.ev.append(e)
            return False
        after = m.get(lo, hi - lo)
        if after != before:
            s, t = self.at[w] - lo, self.at[w] - lo + len(self.bufs[w])
            e['stray'] = after[:s] != before[:s] or after[t:] != before[t:]
        new = m.get(self.at[w], len(self.bufs[w]))
        self.bufs[w] = bytearray(new)
        if f in WR:
            e['r'] = [p[0] + 1, r - self.at[p[0]]]
        elif f in ('strCmp', 'strNcmp', 'strChr', 'strRchr', 'strStr', 'strLen'):
            e['r'] = sg(r)
        else:
            e['r'] = r
        e.update(w=w + 1, b=list(new))
        self.ev.append(e)
        return True

    # ---- preconditions ----
    def len(self, p):
        b = self.bufs[p[0]]
        k = b.find(0, p[1])
        return None if k < 0 else k - p[1]

    def ok(self, f, p, q, n):
        room = len(self.bufs[p[0]]) - p[1]
        if f not in ('strCpy', 'strNcpy') and self.len(p) is None:
            return False
        if q is not None and self.len(q) is None:
            return False
        if f in WR and p[0] == q[0]:
            return False
        if f == 'strCpy':
            return self.len(q) < room
        if f == 'strNcpy':
            return n <= room
        if f == 'strCat':
            return self.len(p) + self.len(q) < room
        if f == 'strNcat':
            return self.len(p) + min(self.len(q), max(n - 1, 0)) < room
        return True


def check(c):
    r = random.Random('l04/%d' % c.seed)
    ms = tlib.machines(c)
    traces, files = [], {}

    def done(rec):
        t = dict(id=len(traces), buf=rec.init, ev=rec.ev)
        traces.append(t)
        files[t['id']] = rec.m.name
    # every pair of short strings, in every function
    S = strs((97, 98), c.q(3, 4))
    for m in ms:
        for s in S:
            for t in S:
                rec = Rec(m, [bytes(s) + b'\0' + bytes([7] * 9), bytes(t) + b'\0', bytes(t) + b'\0'], r.randrange(1000))
                calls = [('strCmp', (0, 0), (1, 0), None), ('strStr', (0, 0), (1, 0), None), ('strLen', (0, 0), None, None)]
                calls += [('strNcmp', (0, 0), (1, 0), n) for n in range(0, 5)]
                calls += [(f, (0, 0), None, k) for f in ('strChr', 'strRchr') for k in (97, 98, 99)]
                w = r.choice([('strCpy', (0, 0), (1, 0), None), ('strCat', (0, 0), (1, 0), None)]
                             + [(f, (0, 0), (1, 0), n) for f in ('strNcpy', 'strNcat') for n in range(0, 6)])
                calls.append(w)
                for a in calls:
                    if rec.ok(*a) and not rec.call(*a):
                        break
                done(rec)
        # every short string searched for in every longer one
        T = [bytes(x) for x in strs((97, 98), c.q(3, 4))]
        hay = [bytes(x) for x in strs((97, 98), c.q(6, 8)) if len(x) > 3]
        if m is not ms[0] and c.q(1, 0):
            hay = r.sample(hay, 40)
        for s in hay:
            rec = Rec(m, [s + b'\0', b'\0'.join(T) + b'\0'], r.randrange(1000))
            at = 0
            for t in T:
                if not rec.call('strStr', (0, 0), (1, at)):
                    break
                at += len(t) + 1
            done(rec)
        for n in range(256):
            rec = Rec(m, [b'\0'], n)
            for f in CT:
                if not rec.call(f, n=n):
                    break
            done(rec)
        # conversions
        for k in range(c.q(150, 3000)):
            v = r.choice([r.randrange(65536), r.randrange(300), 65535, 32768, 32767, 0])
            d = '%0*d' % (r.randint(1, 7), v)
            x = ('%0*x' if r.random() < .5 else '%0*X') % (r.randint(1, 6), v)
            x += r.choice(['', '', 'g', ' 1', 'G', '@', '/', ':', '`', 'x'])
            rec = Rec(m, [d.encode() + b'\0', x.encode() + b'\0', b'\0'], k)
            rec.call('atoi', (0, 0)) and rec.call('htoi', (1, 0)) and rec.call(r.choice(['atoi', 'htoi']), (2, 0))
            done(rec)
        # histories on shared arrays
        for k in range(c.q(250, 6000)):
            al = r.choice([(97, 98), (97, 98, 99), (1, 127, 128, 255), (97, 65, 225)])
            bufs = []
            for _ in range(3):
                s = [r.choice(al) for _ in range(r.choice([0, 1, 2, 3, 5, 8, 20]))]
                bufs.append(bytes(s) + b'\0' + bytes(r.choice(al + (0,)) for _ in range(r.randint(0, 25))))
            rec = Rec(m, bufs, k)
            for _ in range(r.randint(3, 14)):
                f = r.choice(TWO + TWON + ('strLen', 'strChr', 'strRchr') + ('strStr', 'strNcmp', 'strNcpy', 'strNcat'))
                p, q = ((j, 0 if r.random() < .6 else r.randrange(len(bufs[j]))) for j in (r.randrange(3), r.randrange(3)))
                n = None
                if f in TWON:
                    n = r.randint(0, r.choice([3, 6, 25]))
                elif f in ('strChr', 'strRchr'):
                    n, q = r.choice(al), None
                elif f == 'strLen':
                    q = None
                if rec.ok(f, p, q, n) and not rec.call(f, p, q, n):
                    break
            done(rec)
    bad = trace.validate(c, 'Str', traces)
    for i, k in sorted(bad.items()):
        t = traces[i]
        e = t['ev'][k] if 0 <= k < len(t['ev']) else None
        c.violation('%s/%s' % (files[i], e['f'] if e else '?'),
                    '%s: call %d of the history is not as specified: %s\narrays at the start: %s' % (files[i], k + 1, e, t['buf']),
                    {'history.json': json.dumps(t)})
    for t in (traces[3], traces[-1]):
        c.sample(json.dumps(t)[:900])
    tlib.coverage(c, ms, ('string.cmm', 'ctype.cmm'))
    c.assumptions += ['copies between overlapping arrays, strChr of the terminator and atoi of anything but digits are not decided',
                      'the recording CPU (lib/tacsim.c) is compared with spec/TaC.tla by check L06']
    return 'model_checking'
