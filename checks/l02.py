"""Streams of the TaC library: histories of calls are run on the TaC machine above a kernel with faults, recorded with the system
calls the library makes, and validated by TLC against spec/Stdio.tla."""
import itertools, json, random
import tlib, trace
from tlib import Fault, Exit
from checks.l01 import sg

USR = '_ub\tWS\t2048\n_ue\tDW\t1\n'
TTY = {1: -1, 2: -2, 3: -3}
MSG = ["Invalid file name", "No such file or directrory", "File exists", "File is opened", "File table overflow", "Bad file number",
       "No space left on device", "Bad path", "Bad mode", "Bad attribute", "Directory is not empty", "Invalid argument",
       "Process table overflow", "Bad EXE file", "Bad MAGIC number", "Too many open files", "No children", "No zombie children",
       "Not enough memory", "Try again", "Invalid system call number", "Zero division", "Privilege violation", "Illegal instruction",
       "Memory violation", "Stack overflow", "stdio: Bad open mode", "stdio: Bad file pointer", "fgetc: EOF was ignored",
       "fopen: Too many open files", "fclose: Standard i/o should not be closed", "fprintf: Invalid conversion",
       "malloc: Insufficient memory", "free: Bad address"]


class Rec:
    def __init__(self, m, r):
        self.m, self.r = m, r
        m.kernel = self.kernel
        m.reset(r.randrange(1 << 30))
        m.start('__stdlibInit')
        m.start('__stdioInit')
        self.fp = {i: m.word(m.sym('_' + n)) for i, n in ((1, 'stdin'), (2, 'stdout'), (3, 'stderr'))}
        self.mode = {1: 0, 2: 1, 3: 1}
        self.open = {1, 2, 3}
        self.ub = m.sym('_ub')
        self.disk, self.fds, self.faults = {}, {}, []
        self.ev, self.dead, self.fresh = [], False, 0
        self.next = 3
        self.tty = b''

    # ------------------------------------------------------------ kernel
    def fault(self, kind):
        """what goes wrong in this system call: one of the planned faults, by kind"""
        if self.faults and self.faults[0][0] == kind:
            if self.faults[0][1] == 0:
                return self.faults.pop(0)[2]
            self.faults[0][1] -= 1
        return None

    def kernel(self, no, a, b, d):
        m = self.m
        e = dict(k='svc', no=no, a=sg(a), n=0, data=[], r=0, path=[], mode=0, h=sg(b), l=sg(d), lenH=0, lenL=0)
        if no == 1:
            raise Exit(sg(a))
        if no in (4, 8, 13):
            p = m.str(a)
            e['path'] = list(p)
        if no == 8:
            e['mode'] = b
            x = self.fault('open')
            if x is not None:
                e['r'] = x
            elif p not in self.disk:
                e['r'] = -2
            else:
                fd = self.next
                self.next += 1
                self.fds[fd] = [p, len(self.disk[p]) if b == 2 else 0]
                e['r'] = fd
        elif no == 4:
            x = self.fault('creat')
            if x is not None:
                e['r'] = x
            else:
                self.disk[p] = b''
        elif no == 9:
            x = self.fault('close')
            e['r'] = 0 if x is None else x
        elif no == 10:
            p, o = self.fds[sg(a)]
            x = self.fault('read')
            t = self.disk[p][o:o + d]
            if x is not None and x < 0:
                t, e['r'] = b'', x
            else:
                t = t[:x] if x and sg(a) != 60 else t         # a directory comes in whole entries
                e['r'] = len(t)
            self.fds[sg(a)][1] += len(t)
            e['n'], e['data'] = d, list(t)
            m.put(b, t)
        elif no == 11:
            t = m.get(b, d)
            x = self.fault('write')
            e['r'] = len(t) if x is None else min(x, len(t) - 1)
            e['data'] = list(t)
        elif no == 12:
            x = self.fault('seek')
            e['r'] = 0 if x is None else x
            if x is None and sg(a) in self.fds:
                self.fds[sg(a)][1] = (b & 255) * 65536 + d
        elif no == 13:
            where = p[-1:] == b'/'                            # the library looks at the directory first
            x = None if where else self.fault('stat')
            if x is None and not where and p not in self.disk:
                x = -2
            e['r'] = 0 if x is None else x
            if where:
                m.word(b, 0x10)
            elif x is None:
                e['lenH'], e['lenL'] = self.size
                for i, w in enumerate((1, 2, *self.size)):
                    m.word(b + 2 * i, w)
        elif no == 14:
            k = self.tty.find(b'\n')
            t = (self.tty[:k + 1] if k >= 0 else self.tty) or b'?\n'
            x = self.fault('read')
            t = t[:max(1, min(b, x or b))]
            self.tty = self.tty[len(t):]
            e['n'], e['data'], e['r'] = b, list(t), len(t)
            m.put(a, t)
        elif no == 15:
            e['data'] = list(m.get(a, b))
            e['r'] = b
        self.ev.append(e)
        return e['r']

    # ------------------------------------------------------------ calls
    def put(self, x, end=True):
        """place a string at a new place of the user area"""
        x = bytes(x)
        a = self.at
        self.m.put(a, x + (b'\0' if end else b''))
        self.at += (len(x) + 2) & ~1
        return a

    def call(self, f, s=0, text=b'', n=0, h=0, l=0, path=b'', mode=b'', msg=None, err=None, fd=0, v=0, bad=0, sz=(0, 0)):
        m = self.m
        m.put(self.ub, bytes([0xA5]) * 2050)
        self.at = self.ub + 2
        c = dict(k='call', f=f, s=s, text=list(text), n=n, h=h, l=l, path=list(path), mode=list(mode), msg='', err=0, fd=fd, v=v)
        fp = self.fp.get(s, bad)
        buf, blen = 0, 0
        self.size = sz
        fn = '_' + f
        if f == 'fputc':
            args = [text[0], fp]
        elif f == 'putchar':
            args, c['s'] = [text[0]], 2
        elif f == 'fputs':
            args = [self.put(text), fp]
        elif f == 'puts':
            args, c['s'] = [self.put(text)], 2
        elif f == 'perror':
            e = sg(m.word(m.sym('_errno'))) if err is None else err
            args = [0 if msg is None else self.put(msg)]
            if err is not None:
                fn = '__perror'
                args.append(err)
            c['msg'] = MSG[-e - 1] if -len(MSG) <= e < 0 else 'Undefined error'
            c['text'] = list((msg + b': ' if msg else b'') + c['msg'].encode() + b'\n')
            c['s'], c['err'] = 3, e
        elif f in ('fgetc', 'feof', 'fflush', 'fclose', 'ferror'):
            args = [fp]
        elif f == 'getchar':
            args, c['s'] = [], 1
        elif f == 'fgets':
            self.at += 2
            buf, blen = self.at, n
            args = [buf, n, fp]
        elif f == 'fseek':
            args = [fp, h, l]
        elif f == 'fopen':
            args = [self.put(path), self.put(mode)]
        elif f == 'fsize':
            p = self.put(path)
            self.at += 2
            buf, blen = self.at, 4
            args = [p, buf]
        elif f == 'readDir':
            nm, buf = self.at + 20, self.at
            m.word(buf, nm)
            args, blen = [fd, buf], 0
            area = [(buf + 2, 8), (nm, 12)]
        elif f == 'exit':
            args = [v]
        if f != 'readDir':
            area = [(buf, blen)] if blen else []
        before = m.get(self.ub, 2050)
        self.ev.append(c)
        e = dict(k='ret', v=0, null=False, buf=[], size=[0, 0], name=[], attr=0, clst=0, lenH=0, lenL=0, errno=0, stray=False)
        try:
            r = m.start(fn, args)
        except Exit as x:
            self.ev.append(dict(k='exit', v=x.args[0]))
            self.dead = True
            return None
        except Fault as x:
            del self.ev[self.ev.index(c) + 200:]
            self.ev.append(dict(k='fault: %s' % x))
            self.dead = True
            return None
        after = bytearray(m.get(self.ub, 2050))
        for a, k in area:
            after[a - self.ub:a - self.ub + k] = before[a - self.ub:a - self.ub + k]
        e['stray'] = bytes(after) != before
        e['errno'] = sg(m.word(m.sym('_errno')))
        e['null'] = r == 0
        e['v'] = sg(r)
        if f in ('fgetc', 'getchar'):
            e['v'] = r
        if f == 'fgets':
            e['buf'] = list(m.get(buf, n))
            if r not in (0, buf):
                e['stray'] = True
        elif f == 'fsize':
            e['size'] = [m.word(buf), m.word(buf + 2)]
        elif f == 'readDir':
            e['name'] = list(m.get(nm, 12))
            e['attr'], e['clst'], e['lenH'], e['lenL'] = [m.word(buf + 2 * i) for i in (1, 2, 3, 4)]
        self.ev.append(e)
        if f == 'fopen' and r:
            s = max(self.fp) + 1
            if r in [self.fp[i] for i in self.open]:
                e['stray'] = True
            self.fp[s] = r
            self.mode[s] = 'rwa'.index(mode.decode())
            self.open.add(s)
            return s
        if f == 'fclose' and r == 0:
            self.open.discard(s)
        return r

    def stream(self, kinds):
        """a stream of some of the kinds: r w (files), i o e (standard), c closed, b bad"""
        r, l = self.r, []
        for k in kinds:
            if k == 'r':
                l += [i for i in self.open if i > 3 and self.mode[i] == 0]
            elif k == 'w':
                l += [i for i in self.open if i > 3 and self.mode[i] > 0]
            elif k in 'ioe':
                l.append('ioe'.index(k) + 1)
            elif k == 'c':
                live = [self.fp[i] for i in self.open]
                l += [i for i in self.fp if i not in self.open and self.fp[i] not in live]
            elif k == 'b':
                l.append(0)
        return r.choice(l) if l else None


def text(r, n=None):
    n = r.choice([0, 1, 2, 5, 20, 60, 79, 80, 81, 126, 127, 128, 129, 130, 255, 256, 257, 300]) if n is None else n
    if r.random() < .5:
        return bytes(r.choice(b'abc\n') for _ in range(n))
    return bytes(r.randrange(1, 256) for _ in range(n))


NAMES = [b'/a', b'/dir/b.txt', b'/X', b'/long-name/c.d']


def rand(x, n):
    """a random history"""
    r = x.r
    for nm in NAMES[:3]:
        if r.random() < .7:
            x.disk[nm] = text(r) + text(r)
    x.tty = b''.join(text(r) for _ in range(6))
    wrong = r.random() < .15
    for i in range(n):
        if r.random() < .15 and not x.faults:
            k = r.choice(['write', 'write', 'read', 'read', 'seek', 'stat', 'creat', 'open', 'close'])
            v = {'write': r.choice([0, 1, 5, 79, 127, -7, -20]), 'read': r.choice([1, 2, 5, 127, -6, -20]), 'seek': r.choice([-12, -6]),
                 'stat': -8, 'creat': -7, 'open': r.choice([-1, -4, -16]), 'close': -6}[k]
            x.faults.append([k, r.choice([0, 0, 1, 2]), v])
        last = wrong and i == n - 1
        f = r.choice(['fopen', 'fputs', 'fputs', 'fputc', 'fputc', 'puts', 'putchar', 'fgets', 'fgets', 'fgetc', 'feof', 'getchar', 'fflush', 'fclose',
                      'fseek', 'ferror', 'fsize', 'perror', 'readDir'])
        s = None
        if f in ('fputs', 'fputc', 'fflush'):
            s = x.stream('rwicb' if last else 'wwoe')
        elif f in ('fgets', 'fgetc', 'feof'):
            s = x.stream('wocbe' if last else 'ri')
        elif f in ('fclose', 'fseek', 'ferror'):
            s = x.stream('cbioe' if last and f == 'fclose' else 'cb' if last else 'rw' if f != 'ferror' else 'rwioe')
        else:
            s = 0
        if s is None or f == 'fclose' and r.random() < .5:
            continue
        bad = r.choice([0, x.ub + 2, x.ub + 600])
        if f in ('fputs', 'puts'):
            x.call(f, s, text(r), bad=bad)
        elif f in ('fputc', 'putchar'):
            x.call(f, s, bytes([r.choice([0, 10, 65, 255, r.randrange(256)])]), bad=bad)
        elif f == 'fgets':
            x.call(f, s, n=r.choice([2, 3, 10, 80, 128, 129, 300]), bad=bad)
        elif f in ('fgetc', 'getchar'):
            if not last and r.random() < .9:
                if x.call('feof', s or 1) or x.dead:
                    if x.dead:
                        return
                    continue
            x.call(f, s, bad=bad)
        elif f == 'fseek':
            x.call(f, s, h=r.choice([0, 0, 0, 1, -1]), l=r.choice([0, 1, 5, 100, 128, 256, -1, 300]), bad=bad)
        elif f == 'fopen':
            if len(x.open) >= 8 and not last:
                continue
            x.call(f, path=r.choice(NAMES), mode=r.choice([b'r', b'w', b'a']) if not last else r.choice([b'', b'r+', b'x', b'rw', b'R', b'wb', b'r']))
        elif f == 'fsize':
            if last or r.random() < .3:
                x.call(f, path=r.choice(NAMES if last else [p for p in x.disk if p[:1] == b'/'] or NAMES), sz=r.choice([(0, 0), (1, 2), (0x1234, 0xffff)]))
        elif f == 'perror':
            x.call(f, msg=r.choice([None, b'', b'msg', b'a b: %d']), err=r.choice([None, None, 0, 1, -1, -5, -34, -35, 100, -32768, -r.randrange(40)]))
        elif f == 'readDir':
            direc(x)
        else:
            x.call(f, s, bad=bad)
        if x.dead:
            return
    if not x.dead and r.random() < .8:
        x.call('exit', v=r.choice([0, 1, -1, 255, 32767, -32768]))


def direc(x):
    """read a directory with entries of all kinds"""
    r = x.r
    es = b''
    for _ in range(r.choice([0, 1, 2, 4, 6])):
        d = bytearray(r.randrange(256) for _ in range(32))
        d[0] = r.choice([0xe5, 5, 0x41, 0x41, 0x20, 1] + [0] * (r.random() < .2))
        d[11] = r.choice([0, 0x10, 0x20, 0x30, 1, 4, 0x0f, 8, 2, 0x12, 0x28, 0xff, 0x80, 0x40])
        es += bytes(d)
    fd = 60
    x.disk[b'\xff'] = es
    x.fds[fd] = [b'\xff', 0]
    for _ in range(len(es) // 32 + 2):
        if x.dead or x.call('readDir', fd=fd) != 1:
            break


def systematic(c):
    r = random.Random('l02/%d' % c.seed)
    # output: what is written, in which pieces, and how the first writes fare
    for total in (1, 79, 80, 81, 127, 128, 129, 255, 256, 257, 260):
        for piece in (1, 50, 127, 128, 300):
            for fl in ([], [['write', 0, 0]], [['write', 0, 7]], [['write', 0, -7]], [['write', 1, 3]]):
                for end in ('fflush', 'fclose', 'exit', 'fseek'):
                    if c.tier == 'quick' and (total + piece + len(end) + len(fl) + r.randrange(3)) % 3:
                        continue

                    def go(x, total=total, piece=piece, fl=fl, end=end):
                        s = x.call('fopen', path=b'/f', mode=b'w')
                        x.faults = [list(f) for f in fl]
                        t = bytes(97 + i % 26 for i in range(total))
                        for i in range(0, total, piece):
                            if not x.dead:
                                x.call('fputs' if piece > 1 else 'fputc', s, t[i:i + piece])
                        for e in (end, 'ferror', 'fclose', 'exit'):
                            if not x.dead and s in x.open:
                                x.call(e, s)
                    yield go
    for total in (1, 79, 80, 81, 159, 160, 161, 300):
        for nl in (0, 1, 40, 79, 80, 81):
            for s in (2, 3):
                def go(x, total=total, nl=nl, s=s):
                    t = bytes(10 if nl and i % nl == nl - 1 else 97 + i % 26 for i in range(total))
                    for i in range(0, total, 33):
                        x.call('fputs', s, t[i:i + 33])
                    x.call('exit')
                yield go
    # input: length of the file, lines, and how much the kernel delivers at once
    for total in (0, 1, 2, 127, 128, 129, 255, 256, 257):
        for nl in (0, 1, 10, 127, 128, 129):
            for n in (2, 3, 80, 128, 129, 130, 300):
                for fl in ([], [['read', 0, 5]], [['read', 1, 1]], [['read', 0, -6]], [['read', 1, -6]]):
                    if c.tier == 'quick' and r.randrange(7):
                        continue

                    def go(x, total=total, nl=nl, n=n, fl=fl):
                        x.disk[b'/f'] = bytes(10 if nl and i % nl == nl - 1 else 97 + i % 26 for i in range(total))
                        s = x.call('fopen', path=b'/f', mode=b'r')
                        x.faults = [list(f) for f in fl]
                        for _ in range(300):
                            if x.call('fgets', s, n=n) in (0, None):
                                break
                        for e in ('ferror', 'feof', 'fgets'):
                            x.call(e, s, n=n)
                        if not x.dead:
                            x.call('fseek', s, l=total // 2)
                        for _ in range(300):
                            if x.dead or x.call('feof', s):
                                break
                            x.call('fgetc', s)
                        if not x.dead:
                            x.call('fgetc', s)
                    yield go
    # every call on every kind of stream
    for f in ('fputc', 'fputs', 'fgetc', 'fgets', 'feof', 'fflush', 'fclose', 'fseek', 'ferror'):
        for k in 'rwaioecCb0':
            for pre in (0, 1):
                def go(x, f=f, k=k, pre=pre):
                    x.disk[b'/f'] = b'abc\ndef'
                    x.tty = b'line\nmore\n'
                    s, bad = 0, 0
                    if k in 'rwacC':
                        m = {'c': b'w', 'C': b'r'}.get(k, k.encode())
                        s = x.call('fopen', path=b'/f', mode=m)
                        if pre:
                            x.call('fgetc' if m == b'r' else 'fputc', s, b'z')
                        if k in 'cC':
                            x.call('fclose', s)
                    elif k in 'ioe':
                        s = 'ioe'.index(k) + 1
                        if pre:
                            x.call('fgetc' if k == 'i' else 'fputc', s, b'z')
                    elif k == 'b':
                        bad = x.ub + (600 if pre else 2)
                    x.call(f, s, b'q', n=5, bad=bad)
                    if not x.dead:
                        x.call('exit', v=3)
                yield go
    # the table of open files
    for n in range(1, 8):
        for shut in range(0, 6):
            def go(x, n=n, shut=shut):
                l = []
                for i in range(n):
                    if x.dead:
                        return
                    x.disk[b'/%d' % i] = b'%d' % i
                    l.append(x.call('fopen', path=b'/%d' % i, mode=(b'r', b'w', b'a')[i % 3]))
                if not x.dead:
                    if shut < len(l):
                        x.call('fclose', l[shut])
                    l.append(x.call('fopen', path=b'/0', mode=b'r'))
                    for s in l:
                        if not x.dead and s and s in x.open:
                            x.call('fgetc' if x.mode[s] == 0 else 'fputc', s, b'k')
                if not x.dead:
                    x.call('exit')
            yield go
    # opening
    for mode in (b'r', b'w', b'a'):
        for there in (0, 1):
            for fl in ([], [['open', 0, -4]], [['open', 0, -2]], [['open', 1, -16]], [['creat', 0, -7]], [['creat', 0, -2]], [['open', 0, -1]]):
                def go(x, mode=mode, there=there, fl=fl):
                    if there:
                        x.disk[b'/f'] = b'abc'
                    x.faults = [list(f) for f in fl]
                    s = x.call('fopen', path=b'/f', mode=mode)
                    x.call('perror', msg=b'open')
                    if s:
                        x.faults = [['close', 0, -6]]
                        x.call('fclose', s)
                        x.call('ferror', s)
                        if mode == b'r':
                            x.call('feof', s)
                        x.call('fclose', s)
                    x.call('exit', v=-5)
                yield go
    for e in list(range(-40, 3)) + [32767, -32768]:
        yield lambda x, e=e: (x.call('perror', msg=b'm', err=e), x.call('perror', err=e), x.call('exit'))


def check(c):
    r = random.Random('l02/%d' % c.seed)
    ms = tlib.machines(c, extra=[('user', USR)])
    for m in ms:                        # one machine at a time: the histories are large
        traces, odd = [], {}
        plans = list(systematic(c)) + [lambda x, n=n: rand(x, n) for n in [8, 15, 30, 60] * c.q(80, 250)]
        for p in plans:
            x = Rec(m, random.Random(r.randrange(1 << 40)))
            try:
                p(x)
            except (KeyError, TypeError) as e:  # the history should have gone wrong before
                odd[len(traces)] = e
            traces.append(dict(id=len(traces), ev=x.ev))
        bad = trace.validate(c, 'Stdio', traces)
        for i in odd:
            if i not in bad:
                raise odd[i]
        for i, k in sorted(bad.items()):
            ev = traces[i]['ev']
            last = max([j for j in range(0, min(k + 1, len(ev))) if ev[j]['k'] == 'call'] or [0])
            c.violation('%s/%s/%s' % (m.name, ev[last].get('f'), ev[k]['k'] if 0 <= k < len(ev) else '?'), '%s: %s: event %s not allowed' % (
                m.name, json.dumps(ev[last])[:300], json.dumps(ev[k])[:300] if 0 <= k < len(ev) else '?'), {'history.json': json.dumps(traces[i])})
    c.sample(json.dumps(traces[3])[:3000])
    c.sample(json.dumps(traces[-1])[:3000])
    tlib.coverage(c, ms, ('stdio.cmm',))
    c.assumptions += ['the console takes all it is given and delivers at least one byte per request; a kernel never takes or delivers more than asked for',
                      'fgets is called with room for at least one character']
    return 'model_checking'
