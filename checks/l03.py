"""printf and fprintf of the TaC library, and of the C library with and without run-time checks: calls are recorded and
validated by TLC against spec/Printf.tla."""
import json, random
import tlib, trace, clib
from tlib import Fault, Exit, TOP

INTS = [0, 1, 7, 8, 9, 10, 15, 16, 99, 100, 255, 256, 999, 1000, 9999, 10000, 32767, 32768, 32769, 65535, 65534, 55536, 12345]


def value(r, limbs):
    k = r.random()
    if limbs == 1:
        return [r.choice(INTS) if k < .5 else r.randrange(65536)]
    if k < .3:
        return [0] * (limbs - 1) + [r.choice(INTS)]
    if k < .5:
        v = r.choice([0, 1]) * r.choice([-1, 1]) + r.choice([10 ** r.randint(0, 19), 8 ** r.randint(0, 21), 2 ** r.randint(0, 64), 0])
        v %= 1 << (16 * limbs)
        return [v >> (16 * (limbs - 1 - i)) & 65535 for i in range(limbs)]
    if k < .8:
        return [r.randrange(65536) if i or r.random() < .8 else 0 for i in range(limbs)]
    return [r.choice(INTS) for _ in range(limbs)]


def one(r, il, ll, bad=True):
    """a random format with arguments; il / ll: limbs of an int / of a long"""
    fmt, args = b'', []
    for _ in range(r.choice([1, 1, 1, 2, 3, 5])):
        k = r.random()
        if k < .25:
            fmt += bytes(r.choice([65, 48, 45, 32, 10, 100, 108, 200, 1]) for _ in range(r.randint(1, 4)))
        c = r.choice(b'dddoxxcs%ll')
        d = b'%'
        if r.random() < .35:
            d += b'-'
        if r.random() < .3:
            d += b'0'
        if r.random() < .6:
            d += b'%d' % r.choice([0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 20, 30, 100])
        if c == 108:
            d += b'ld'
            args.append(dict(k='l', v=value(r, ll)))
        else:
            d += bytes([c])
            if c == 115:
                args.append(dict(k='s', v=[r.randint(1, 255) for _ in range(r.choice([0, 1, 2, 5, 12]))]))
            elif c == 99:
                args.append(dict(k='n', v=[0] * (il - 1) + [r.randint(1, 255)]))
            elif c != 37:
                args.append(dict(k='n', v=value(r, il)))
        fmt += d
    if bad and r.random() < .06:
        fmt += r.choice([b'%', b'%-', b'%0', b'%5', b'%5u', b'%lx', b'%l', b'%X', b'%i', b'%+d', b'% d', b'%.2d', b'%l%', b'%--d'])
        fmt += r.choice([b'', b'zz'])
    if r.random() < .2:
        fmt += b'\n'
    return fmt, args


def systematic(il, ll):
    """every conversion with every flag and small width, for the values at the limits"""
    res = []
    mx = 1 << 16 * il
    for c in b'dox':
        for v in (0, 1, 9, 10, 63, 64, mx // 2 - 1, mx // 2, mx // 2 + 1, mx - 1, mx - 10, mx - 999):
            for fl in (b'', b'-', b'0', b'-0'):
                for w in (b'', b'1', b'2', b'3', b'5', b'6', b'7', b'9', b'12'):
                    res.append((b'%' + fl + w + bytes([c]), [dict(k='n', v=[v >> 16 * (il - 1 - i) & 65535 for i in range(il)])]))
    for v in (0, 9, 9999, 10000, 10001, 99999999, 100000000, 100000001, 655359999, 655360000, 1310720000, 4294967295, 1 << 31, 120003,
              10 ** 16, 10 ** 16 + 5, 10 ** 17, (1 << 63) - 1, (1 << 64) - 1):
        if v < 1 << 16 * ll:
            for fl in (b'', b'-', b'0', b'-0'):
                for w in (b'', b'5', b'12', b'22'):
                    res.append((b'%' + fl + w + b'ld', [dict(k='l', v=[v >> 16 * (ll - 1 - i) & 65535 for i in range(ll)])]))
    for s in (b'', b'a', b'abc'):
        for fl in (b'', b'-', b'0'):
            for w in (b'', b'1', b'3', b'5'):
                res.append((b'%' + fl + w + b's', [dict(k='s', v=list(s))]))
                res.append((b'%' + fl + w + b'c', [dict(k='n', v=[0] * (il - 1) + [s[0] if s else 255])]))
                res.append((b'%' + fl + w + b'%', []))
    return res


def taccall(m, fmt, args, k):
    """one call on a fresh process; k chooses the stream"""
    m.reset(k)
    sp = m.R[14]
    m.word(TOP - 64, 0)
    out = []

    def kernel(no, a, b, c):
        if no == 15:
            out.append(m.get(a, b))
            return b
        if no == 1:
            raise Exit(a)
        return -1
    m.kernel = kernel
    e = dict(fmt=list(fmt), args=args, stray=False)
    try:
        for f, x in (('__stdlibInit', []), ('__stdioInit', []), ('__environInit', [TOP - 64])):
            m.start(f, x)
        a = TOP - 1000
        at = [(a, fmt + b'\0')]
        a += len(fmt) + 1
        vals = []
        for x in args:
            if x['k'] == 'n':
                vals.append(x['v'][0])
                continue
            a += a % 2
            d = bytes(x['v']) + b'\0' if x['k'] == 's' else b''.join(bytes([v >> 8, v & 255]) for v in x['v'])
            at.append((a, d))
            vals.append(a)
            a += len(d)
        for p, d in at:
            m.put(p, d)
        m.R[14] = sp
        if k % 3 == 0:
            r = m.start('_printf', [at[0][0]] + vals)
            m.start('_fflush', [m.word(m.sym('_stdout'))])
        else:
            r = m.start('_fprintf', [m.word(m.sym('_stderr' if k % 3 == 1 else '_stdout')), at[0][0]] + vals)
            if k % 3 == 2:
                m.start('_fflush', [m.word(m.sym('_stdout'))])
        e.update(st='ret', r=r, out=list(b''.join(out)))
        e['stray'] = any(m.get(p, len(d)) != d for p, d in at)
    except Exit as x:
        v = x.args[0]
        e.update(st='exit', r=v - 65536 if v > 32767 else v, out=list(b''.join(out)))
    except Fault as x:
        e.update(st='fault: %s' % x, r=0, out=[])
    return e


def onfile(m, fmt, args, k, room):
    """one call on a file that takes `room` bytes and then no more; a second one on what is left of the stream"""
    m.reset(k)
    m.word(TOP - 64, 0)
    out, failed = [], []

    def kernel(no, a, b, c):
        if no == 1:
            raise Exit(a)
        if no == 8:
            return 3
        if no == 13:
            m.word(b, 0x10)
            return 0
        if no == 11:
            n = min(c, room - sum(map(len, out)))
            out.append(m.get(b, n))
            if n < c:
                failed.append(1)
            return n if n or k % 2 else -7
        return -1
    m.kernel = kernel
    res = []
    try:
        for f, x in (('__stdlibInit', []), ('__stdioInit', []), ('__environInit', [TOP - 64])):
            m.start(f, x)
        a = TOP - 1500
        m.put(a - 40, b'/F\0\0a\0')
        fp = m.start('_fopen', [a - 40, a - 36])
        at, vals = [(a, fmt + b'\0')], []
        a += len(fmt) + 1
        for x in args:
            if x['k'] == 'n':
                vals.append(x['v'][0])
                continue
            a += a % 2
            d = bytes(x['v']) + b'\0' if x['k'] == 's' else b''.join(bytes([v >> 8, v & 255]) for v in x['v'])
            at.append((a, d))
            vals.append(a)
            a += len(d)
        for p, d in at:
            m.put(p, d)
        for _ in range(2):
            was, n = bool(failed), sum(map(len, out))
            r = m.start('_fprintf', [fp, at[0][0]] + vals)
            now = bool(failed)
            if not now:
                m.start('_fflush', [fp])
            if failed and not now:      # what the stream loses later is no matter of printf
                break
            res.append(dict(fmt=list(fmt), args=args, stray=any(m.get(p, len(d)) != d for p, d in at), st='ret', r=r,
                            out=list(b''.join(out)[n:]), was=was, fails=now and not was))
    except Exit as x:
        v = x.args[0]
        res.append(dict(fmt=list(fmt), args=args, stray=False, st='exit', r=v - 65536 if v > 32767 else v, out=[], was=False, fails=False))
    except Fault as x:
        res.append(dict(fmt=list(fmt), args=args, stray=False, st='fault: %s' % x, r=0, out=[], was=False, fails=False))
    return res


def check(c):
    r = random.Random('l03/%d' % c.seed)
    ms = tlib.machines(c)
    traces, name = [], {}

    def add(evs, nm):
        for i in range(0, len(evs), 40):
            t = dict(id=len(traces), ev=evs[i:i + 40])
            name[t['id']] = nm
            traces.append(t)
    for m in ms:
        todo = systematic(1, 2) + [one(r, 1, 2) for _ in range(c.q(1500, 20000))]
        add([taccall(m, f, a, k) for k, (f, a) in enumerate(todo) if len(f) < 120], m.name)
        evs = []
        for k in range(c.q(300, 3000)):
            f, a = one(r, 1, 2, False)
            if r.random() < .6:
                f += b'%%%dd' % r.choice([100, 126, 127, 128, 129, 200, 300])
                a.append(dict(k='n', v=[r.choice(INTS)]))
            evs += onfile(m, f, a, k, r.choice([0, 1, 60, 127, 128, 129, 200, 255, 256, 10000]))
        add(evs, m.name)
    for nm, evs in clib.printf(c, r, systematic(2, 4), lambda bad: one(r, 2, 4, bad), c.q(1200, 12000)):
        add(evs, nm)
    for t in traces:
        for e in t['ev']:
            e.setdefault('was', False)
            e.setdefault('fails', False)
    bad = trace.validate(c, 'Printf', traces)
    for i, k in sorted(bad.items()):
        t = traces[i]
        e = t['ev'][k] if 0 <= k < len(t['ev']) else None
        conv = bytes(e['fmt']).decode('latin-1') if e else '?'
        c.violation('%s/%s' % (name[i], conv), '%s: printf(%r) with %s: %s, result %s, output %r' % (
            name[i], conv, e and [x['v'] for x in e['args']], e and e['st'], e and e['r'], e and bytes(e['out'])), {'history.json': json.dumps(t)})
    c.sample(json.dumps(traces[1]['ev'][:3]))
    c.sample(json.dumps(traces[-1]['ev'][:3]))
    tlib.coverage(c, ms, ('printf.cmm',))
    c.assumptions += ['zero fill goes before the sign, as the documentation says literally ("0 in place of blanks")']
    return 'model_checking'
