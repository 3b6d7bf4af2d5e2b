"""System call wrappers of the TaC library: calls recorded from the TaC machine with what reaches the kernel, validated by TLC
against spec/Sys.tla."""
import itertools, json, random
import tlib, trace
from tlib import Fault, Exit, TOP
from checks.l01 import sg
from checks.l05 import Fs, path

USR = '_ub\tWS\t1024\n_ue\tDW\t1\n'
FN = {'exec': 3, 'wait': 1, 'sleep': 1, 'creat': 1, 'remove': 1, 'mkDir': 1, 'rmDir': 1, 'open': 2, 'close': 1, 'read': 3, 'write': 3, 'seek': 3,
      'stat': 2, 'ttyRead': 2, 'ttyWrite': 2, 'ttyCtl': 2}
PATHF = ('exec', 'creat', 'remove', 'mkDir', 'rmDir', 'open', 'stat')
VAL = [0, 1, 2, 3, -1, -2, 127, 255, 256, 511, 512, 32767, -32768, 0x5555]


class Rec:
    def __init__(self, m, r, wd, heap):
        self.m, self.r, self.fs = m, r, Fs()
        m.kernel = self.kernel
        m.reset(r.randrange(1 << 30), (m.end + heap) & ~1 if heap else TOP - 1024)
        m.start('__stdlibInit')
        m.start('__stdioInit')
        self.ub = m.sym('_ub')
        self.wd = wd or b'/'
        s = b'PWD=' + wd if wd else b''
        m.put(self.ub, s + b'\0')
        m.word(self.ub + 200, self.ub if s else 0)
        m.word(self.ub + 202, 0)
        self.svc = []
        m.start('__environInit', [self.ub + 200])
        self.ev, self.dead = [], False

    def kernel(self, no, a, b, d):
        m = self.m
        e = dict(no=no, a=[sg(a), sg(b), sg(d)], path=[], r=0)
        if no == 1:
            raise Exit(sg(a))
        if no in (0, 4, 5, 6, 7, 8, 13) and not self.raw:
            e['path'] = list(m.str(a))
        self.svc.append(e)
        if no == 13 and not self.raw and b != self.addr:     # the library looks at a directory
            x = self.fs.attr(bytes(e['path']))
            e['r'] = -2 if x is None else 0
            if x is not None:
                for i, w in enumerate((x, 7, 0, 9)):
                    m.word(b + 2 * i, w)
        else:
            e['r'] = self.result
        return e['r']

    def call(self, f, args, result, path=None, raw=False):
        m = self.m
        m.put(self.ub, bytes([0xA5]) * 1026)
        self.raw, self.result, self.svc = raw, result, []
        self.addr = self.ub + 600
        args = list(args)
        if path is not None:
            m.put(self.ub + 2, path + b'\0')
            args[0] = self.ub + 2
            if f == 'stat':
                args[1] = self.addr
        e = dict(f=f, a=[sg(x & 0xffff) for x in args], path=list(path or b''), raw=raw, st='ret', v=0, errno=0, stray=False, svc=[])
        before = m.get(self.ub, 1026)
        self.ev.append(e)
        try:
            e['v'] = sg(m.start(('__' if raw else '_') + f, args))
            e['svc'] = self.svc
            e['errno'] = sg(m.word(m.sym('_errno')))
            e['stray'] = m.get(self.ub, 1026) != before
        except Exit as x:
            e['st'], self.dead, e['v'] = 'exit', True, x.args[0]
            if f != '_exit':
                e['st'] = 'exit %d' % x.args[0]
        except Fault as x:
            e['st'], self.dead = 'fault: %s' % x, True


def check(c):
    r = random.Random('l07/%d' % c.seed)
    ms = tlib.machines(c, extra=[('user', USR)])
    traces, name = [], {}
    results = [0, 1, 5, 127, 128, 32767, -1, -2, -7, -34, -32768]
    for m in ms:
        def start(wd=None, heap=0):
            x = Rec(m, random.Random(r.randrange(1 << 40)), wd, heap)
            name[len(traces)] = m.name
            traces.append(dict(id=len(traces), ev=x.ev, wd=list(x.wd), dirs=x.fs.spec()))
            return x
        for f, k in FN.items():
            # all values in each argument, all results
            for raw in ((False, True) if f in PATHF else (False,)):
                x = start()
                for i in range(k):
                    for v in VAL:
                        if not x.dead and (raw or f not in PATHF or i > 0):
                            a = [r.choice(VAL) for _ in range(k)]
                            a[i] = v
                            x.call(f, a, r.choice(results), None if raw or f not in PATHF else b'/usr/f', raw)
                for v in results + [r.randrange(-32768, 32768) for _ in range(10)]:
                    if not x.dead:
                        x.call(f, [100 + i for i in range(k)], v, None if raw or f not in PATHF else b'/usr/f', raw)
        for v in VAL + [-r.randrange(40) for _ in range(5)]:
            x = start()
            x.call('close', [3], -6)
            x.call('_exit', [v], 0)
        for wd in (None, b'/', b'/usr', b'/usr/bin', b'/gone', b'/usr/long-directory-name-of-some-length/with-another-one-in-it'):
            for heap in (0, 400):
                for f in PATHF:
                    x = start(wd, heap)
                    for i in range(c.q(60, 400)):
                        if x.dead:
                            break
                        p = path(r)
                        if r.random() < .2:
                            p = r.choice([b'/', b'']) + b'n' * r.randrange(10, 90)
                        x.call(f, [r.choice(VAL) for _ in range(FN[f])], r.choice(results), p)
        for _ in range(c.q(60, 1000)):
            x = start(r.choice([None, b'/usr/bin', b'/home']), r.choice([0, 400]))
            for _ in range(r.choice([5, 30])):
                f = r.choice(list(FN))
                raw = f in PATHF and r.random() < .2
                if not x.dead:
                    x.call(f, [r.choice(VAL) for _ in range(FN[f])], r.choice(results), path(r) if f in PATHF and not raw else None, raw)
    for t in traces:
        t['ev'] = [e for e in t['ev']]
    bad = trace.validate(c, 'Sys', traces)
    for i, k in sorted(bad.items()):
        e = traces[i]['ev'][k] if 0 <= k < len(traces[i]['ev']) else {}
        c.violation('%s/%s/%s' % (name[i], e.get('f'), e.get('st')), '%s: call %d, directory %s: %s' % (
            name[i], k, bytes(traces[i]['wd']).decode(), {a: bytes(v).decode('latin1') if a == 'path' else v for a, v in e.items()}),
            {'history.json': json.dumps(traces[i])})
    c.sample(json.dumps(traces[7])[:3000])
    c.sample(json.dumps(traces[-1])[:3000])
    tlib.coverage(c, ms, ('syslib.s', 'wrap-syslib.cmm'))
    c.assumptions += ['the variable PWD, when there, is an absolute path', 'what the kernel does with a system call is not part of the repository']
    return 'model_checking'
