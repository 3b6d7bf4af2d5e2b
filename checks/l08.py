"""The run-time library of programs translated to C: one program (lib/clibdrv.py), built with cm2c with and without run-time
checks, performs histories of library calls in a scratch directory; TLC validates what it saw against spec/Str.tla,
spec/CFile.tla, spec/CEnv.tla and spec/CMem.tla."""
import itertools, json, os, random, shutil, struct, subprocess
import concurrent.futures as cf
import clib, clibdrv, trace

STR = ['', 'strCpy', 'strNcpy', 'strCat', 'strNcat', 'strCmp', 'strNcmp', 'strLen', 'strChr', 'strRchr', 'strStr', 'atoi', 'htoi',
       'isAlpha', 'isDigit', 'isAlnum', 'isPrint', 'isLower', 'isUpper', 'isXdigit', 'isSpace', 'toLower', 'toUpper']
U32 = 1 << 32


def sg(x):
    x &= U32 - 1
    return x - U32 if x >> 31 else x


def pair(x):
    return [(x >> 16) & 65535, x & 65535]


class Cut(Exception):
    pass


class Log:
    def __init__(self, b):
        b = b[:len(b) // 4 * 4]
        self.v, self.i = struct.unpack('<%di' % (len(b) // 4), b), 0

    def n(self):
        if self.i >= len(self.v):
            raise Cut
        self.i += 1
        return self.v[self.i - 1]

    def op(self, f):
        x = self.n()
        if x != -1000 - f:
            raise Cut

    def list(self):
        n = self.n()
        if not -1 <= n < 100000:
            raise Cut
        return None if n < 0 else [self.n() for _ in range(n)]

    def table(self):
        n = self.n()
        if not 0 <= n < 10000:
            raise Cut
        return [self.list() for _ in range(n)]


def bs(x):
    return [len(x)] + list(x)


def run(prog, w, script, args=(), env=None, stdin=b'', timeout=60):
    os.makedirs(w, exist_ok=True)
    with open(w + '/SCRIPT', 'wb') as f:
        f.write(struct.pack('<%di' % len(script), *[sg(x) for x in script]))
    with open(w + '/IN', 'wb') as f:
        f.write(stdin)
    with open(w + '/IN', 'rb') as i, open(w + '/OUT', 'wb') as o, open(w + '/ERR', 'wb') as e:
        try:
            rc = subprocess.run([prog, *args], cwd=w, env=env or {}, stdin=i, stdout=o, stderr=e, timeout=timeout).returncode
        except subprocess.TimeoutExpired:
            rc = -99
    return rc, Log(open(w + '/LOG', 'rb').read() if os.path.exists(w + '/LOG') else b'')


# ---- strings ----
def strings(r, c):
    """histories (arrays, calls)"""
    S = [bytes(t) for k in range(4) for t in itertools.product(b'ab', repeat=k)]
    for s in S:
        for t in S:
            if c.tier == 'quick' and r.random() < .6:
                continue
            calls = [(5, 0, 1, 0), (10, 0, 1, 0), (7, 0, 0, 0)] + [(6, 0, 1, n) for n in range(5)] + [(f, 0, 0, k) for f in (8, 9) for k in b'abc']
            calls += [(1, 0, 1, 0), (3, 0, 1, 0)][r.randrange(2):][:1] + [(f, 2, 1, n) for f in (2, 4) for n in r.sample(range(6), 2)]
            yield [s + b'\0' + b'\7' * 40, t + b'\0', b'xy\0' + b'\7' * 40], calls
    for n in range(256):
        yield [b'\0'], [(f, 0, 0, n) for f in range(13, 23)]
    for _ in range(c.q(100, 2000)):
        v = r.choice([r.randrange(1 << 31), r.randrange(70000), (1 << 31) - 1, 0, 65535, 65536])
        d = '%0*d' % (r.randint(1, 12), v)
        x = ('%0*x' if r.random() < .5 else '%0*X') % (r.randint(1, 8), r.choice([v, r.randrange(U32)]))
        x += r.choice(['', '', 'g', ' 1', 'G', '@', '/', ':', '`', 'x'])
        yield [d.encode() + b'\0', x.encode() + b'\0'], [(11, 0, 0, 0), (12, 1, 0, 0)]
    for _ in range(c.q(150, 4000)):
        al = r.choice([b'ab', b'abc', bytes((1, 127, 128, 255)), bytes((97, 65, 225))])
        b = [bytes(r.choice(al) for _ in range(r.choice([0, 1, 2, 3, 5, 8, 20]))) + b'\0' + bytes(r.choice(al + b'\0') for _ in range(r.randint(0, 25))) for _ in range(3)]
        cur = [bytearray(x) for x in b]
        ln = lambda k: cur[k].find(0)
        calls = []
        for _ in range(r.randint(3, 14)):
            f, p, q = r.choice([1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 2, 4, 6, 10]), r.randrange(3), r.randrange(3)
            n = r.randint(0, r.choice([3, 6, 25])) if f in (2, 4, 6) else r.choice(al) if f in (8, 9) else 0
            if f < 5:                       # what will be in the array, as far as the next preconditions need it
                if p == q or ln(q) < 0 or f > 2 and ln(p) < 0:
                    continue
                s = bytes(cur[q][:ln(q)])
                if f in (2, 4):
                    s = s[:max(n - 1, 0)]
                at = 0 if f < 3 else ln(p)
                w = s + b'\0' if f != 2 else (s + bytes(n))[:n]
                if at + len(w) > len(cur[p]):
                    continue
                cur[p][at:at + len(w)] = w
            elif ln(p) < 0 or f in (5, 6, 10) and ln(q) < 0:
                continue
            calls.append((f, p, q, n))
        yield b, calls


def do_strings(prog, w, case):
    bufs, calls = case
    sc = []
    for k, b in enumerate(bufs):
        sc += [0, k] + bs(b)
    for f, p, q, n in calls:
        sc += [f, p, q, n] + ([len(bufs[p])] if f < 5 else [])
    rc, lg = run(prog, w, sc)
    ev = []
    try:
        for _ in bufs:
            lg.op(0)
        cur = [list(b) for b in bufs]
        for f, p, q, n in calls:
            lg.op(f)
            e = dict(f=STR[f], p=[p + 1, 0], q=[q + 1, 0], n=n, stray=False, w=p + 1)
            v = lg.n()
            if f < 5:
                e['r'] = [v + 1, 0]
                cur[p] = [lg.n() for _ in cur[p]]
            elif f in (11, 12):
                e['f'] += '32'
                e['r'] = pair(v)
            else:
                e['r'] = v
            e['b'] = cur[p]
            ev.append(e)
        lg.op(-1)
        if rc:
            raise Cut
    except Cut:
        ev.append(dict(f='died with status %d' % rc, p=[1, 0], q=[1, 0], n=0, stray=True, w=1, r=0, b=[]))
    return dict(buf=[list(b) for b in bufs], ev=ev)


# ---- files ----
NAMES = [b'a', b'b', b'c.txt', b'long-name-of-a-file_1']
NONE = [b'none', b'no/where', b'a/b']


class Shadow:
    """what the generator has to know to call only what is specified: which files are open, what is buffered, where streams are"""
    def __init__(self, r, big):
        self.r, self.big = r, big
        self.files = {b'a': b'one\ntwo\n\nlast line without newline', b'b': b''}
        if r.random() < .5:
            self.files[b'c.txt'] = bytes(r.choice(b'xy\n\0\xff') for _ in range(r.choice([1, 100, 4096, 5000][:4 if r.random() < .1 else 2])))
        self.stdin = bytes(r.choice(b'pq\n') for _ in range(r.choice([0, 1, 10, 60])))
        self.start = dict(self.files)
        # size and positions only
        self.size = {k: len(v) for k, v in self.files.items()}
        self.size[b'IN'] = len(self.stdin)
        self.st = {5: dict(n=b'IN', m=b'r', pos=0, last='', dirty=False), 6: dict(n=b'OUT', m=b'w', pos=0, last='', dirty=False), 7: dict(n=b'ERR', m=b'w', pos=0, last='', dirty=False)}
        self.size[b'OUT'] = self.size[b'ERR'] = 0
        self.zero = set()           # files with bytes fgets must not be asked for: none, zeros are compared too
        self.ops = []

    def rd(self, s):
        return s['m'][:1] == b'r' or len(s['m']) > 1

    def wr(self, s):
        return s['m'][:1] != b'r' or len(s['m']) > 1

    def text(self):
        r = self.r
        return bytes(r.choice(b'ABC\n\x01\xfe%') for _ in range(r.choice([0, 1, 1, 2, 5, 20, 90])))

    def write(self, s, k):
        if not self.wr(s):
            return
        p = self.size[s['n']] if s['m'][:1] == b'a' else s['pos']
        self.size[s['n']] = max(self.size[s['n']], p + k)
        s['pos'], s['last'], s['dirty'] = p + k, 'w', True

    def step(self):
        r = self.r
        f = r.choice([30, 30, 30, 31, 32, 32, 33, 33, 34, 34, 34, 35, 35, 35, 36, 37, 38, 39, 39, 40, 41, 42, 43, 44, 45, 46])
        mine = [k for k in self.st if k < 5]
        if f == 30:
            free = [k for k in range(5) if k not in self.st]
            if not free:
                return
            n = r.choice(NAMES + NAMES + NONE + [b'd'])
            m = r.choice([b'r', b'r', b'w', b'a', b'r+', b'w+', b'a+'])
            if n == b'd' and m == b'r':
                return
            others = [x for x in self.st.values() if x['n'] == n]
            if others and (m != b'r' or any(x['m'] != b'r' for x in others)):
                return
            k = free[0]
            self.ops.append((30, k, n, m))
            if n in NONE or n == b'd' or m[:1] == b'r' and n not in self.size:
                return
            if m[:1] == b'w' or n not in self.size:
                self.size[n] = 0
            self.st[k] = dict(n=n, m=m, pos=0, last='', dirty=False)
            return
        if f == 40:
            n = r.choice(NAMES + [b'none', b'no/where'])
            if any(x['n'] == n and x['dirty'] for x in self.st.values()):
                return
            self.ops.append((40, 0, n))
            return
        if f in (41, 42, 45):
            t = self.text()
            if f == 41:
                t = (t or b'.')[:1]
            self.write(self.st[6], len(t))
            self.ops.append((f, 6, t))
            return
        if f == 46:
            t = self.text().replace(b'\0', b'') or b'm'
            self.size[b'ERR'] += len(t)
            self.ops.append((f, 7, t))
            return
        if f == 43:
            s = self.st[5]
            if s['pos'] < self.size[b'IN']:
                s['pos'] += 1
                self.ops.append((f, 5))
            return
        if not mine:
            return
        k = r.choice(mine + mine + [5, 6, 7]) if f != 31 else r.choice(mine)
        s = self.st[k]
        if f == 31:
            del self.st[k]
            self.ops.append((31, k))
        elif f in (32, 33, 44):
            if s['last'] == 'r' and self.wr(s) or k == 5:
                return
            t = self.text()
            if f == 32:
                t = (t or b'.')[:1]
            if not self.wr(s) and (t == b'' or f == 44):
                return
            self.write(s, len(t))
            self.ops.append((f, k, t))
        elif f in (34, 35, 36):
            if s['last'] == 'w' and self.rd(s):
                return
            if not self.rd(s):
                if f == 35 and k < 5:
                    self.ops.append((35, k, r.randrange(2, 40)))
                return
            left = self.size[s['n']] - s['pos']
            if f == 34:
                if left <= 0:
                    return
                s['pos'] += 1
            s['last'] = 'r'
            if f == 35:
                s['line'] = True        # where the stream is now is not followed: seek next, or read on with fgets
            self.ops.append((f, k) + ((r.choice([2, 3, 10, 40, 80]),) if f == 35 else ()))
        elif f == 37:
            self.ops.append((37, k))
        elif f == 38:
            if not self.wr(s) or s['last'] == 'r':
                return
            s['last'], s['dirty'] = '', False
            self.ops.append((38, k))
        elif f == 39:
            if k in (6, 7):
                return
            z = self.size[s['n']]
            o = r.choice([0, z, max(z - 1, 0), r.randrange(z + 1), z + r.randrange(5)]) if r.random() < .9 else -1
            if self.big and r.random() < .5:
                o = r.choice([65535, 65536, 65537, (1 << 31) - 1, 1 << 31, (1 << 31) + 7, U32 - 1, U32, U32 + 5, 3 * U32 + 65536])
            self.ops.append((39, k, o >> 32, o & (U32 - 1)) if o >= 0 else (39, k, -r.randrange(1, 4), r.randrange(U32)))
            if o >= 0:
                s['pos'], s['last'] = o, ''
                s['dirty'] = False if not s['dirty'] else s['dirty']
                s.pop('line', None)


def lines(content, pos, n):
    """how far fgets goes"""


def files(r, c):
    for hi in (0, 1, 2, 5):             # sizes whose halves matter
        for lo in (0, 6, 65535, 1 << 31, U32 - 1):
            s = Shadow(r, True)
            n = NAMES[0]
            s.ops = [(30, 0, n, b'w'), (39, 0, hi, lo), (32, 0, b'Z'), (31, 0), (40, 0, n)]
            yield s, (99, 0)
    for k in range(c.q(260, 6000)):
        s = Shadow(r, k % 13 == 0)
        n = r.choice([5, 15, 40])
        while n:
            n -= 1
            # after fgets the generator does not know the position: only fgets, feof, a seek or closing may follow on that stream
            before = len(s.ops)
            keep = {k: x.get('line') for k, x in s.st.items()}
            bad = [k for k, x in keep.items() if x]
            s.step()
            if len(s.ops) > before:
                op = s.ops[-1]
                if op[1] in bad and op[0] not in (31, 35, 36, 37, 39) and op[0] not in (40, 41, 42, 45, 46, 30):
                    if op[0] in (34, 43):
                        s.ops.pop()
        yield s, r.choice([(99, 0), (99, r.randrange(256)), (98, r.randrange(256)), (98, 0), (-1,), (98, 256 + r.randrange(5))])


def content(p):
    """size and bytes of a file that are not 0"""
    q = lambda x: [x >> 16, x & 65535]
    with open(p, 'rb') as f:
        z = os.fstat(f.fileno()).st_size
        dat, at = [], 0
        while at < z:
            try:
                at = os.lseek(f.fileno(), at, os.SEEK_DATA)
            except OSError:
                break
            end = os.lseek(f.fileno(), at, os.SEEK_HOLE)
            f.seek(at)
            while at < end:
                b = f.read(min(end - at, 1 << 22))
                if not b:
                    break
                if b.strip(b'\0'):
                    for i, x in enumerate(b):
                        if x:
                            dat.append(q(at + i) + [x])
                at += len(b)
            at = max(at, end)
    return dict(size=q(z), dat=dat[:20000])


def do_files(prog, w, case):
    s, last = case
    os.makedirs(w + '/d')
    for n, t in s.start.items():
        with open(os.path.join(w.encode(), n), 'wb') as f:
            f.write(t)
    sc = []
    for op in s.ops:
        f, k = op[:2]
        sc += [f, k]
        for x in op[2:]:
            sc += [x[0]] if f in (32, 41) else bs(x) if isinstance(x, bytes) else [x]
    sc += list(last)
    rc, lg = run(prog, w, sc, stdin=s.stdin)
    ev = []
    err = open(w + '/ERR', 'rb').read()
    at = 0
    try:
        for op in s.ops:
            f, k = op[:2]
            lg.op(f)
            e = dict(f={30: 'fopen', 31: 'fclose', 32: 'fputc', 33: 'fputs', 34: 'fgetc', 35: 'fgets', 36: 'feof', 37: 'ferror', 38: 'fflush', 39: 'fseek',
                        40: 'fsize', 41: 'putchar', 42: 'puts', 43: 'getchar', 44: 'fprintf', 45: 'printf', 46: 'perror'}[f],
                     s=k, r=lg.n(), name=[], mode=[], text=[], n=0, b=[], off=[0, 0, 0], size=[0, 0, 0], said=[])
            if f == 30:
                e.update(name=list(op[2]), mode=list(op[3]))
            elif f in (32, 33, 41, 42, 44, 45, 46):
                e['text'] = list(op[2])
            elif f == 35:
                e.update(n=op[2], b=lg.list())
            elif f == 39:
                e['off'] = [op[2]] + pair(op[3])
            elif f == 40:
                a, b = lg.n(), lg.n()
                e.update(name=list(op[2]), size=[a] + pair(b))
            if k == 7 and f in (32, 33, 44):
                at += len(op[2])
            if f == 46:                 # standard error is not buffered
                t = err[at + len(op[2]):]
                e['said'] = list(err[at:at + len(op[2])] + t[:t.find(b'\n') + 1])
                at += len(e['said'])
            ev.append(e)
        lg.op(last[0])
        names = [x for x in sorted(os.listdir(os.fsencode(w))) if x not in (b'd', b'SCRIPT', b'LOG')]
        ev.append(dict(f='end', s=0, r=rc, status=last[1] if len(last) > 1 else 0, names=[list(x) for x in names],
                       files=[content(os.path.join(w.encode(), x)) for x in names]))
    except Cut:
        ev.append(dict(f='died with status %d' % rc, s=0, r=0))
    st = [[list(k), list(v)] for k, v in s.start.items()]
    return dict(files=st + [[list(b'IN'), list(s.stdin)], [list(b'OUT'), []], [list(b'ERR'), []]], ev=ev)


# ---- environment ----
DIRS = [b'qa', b'qa/qb', b'qa/qb/x.y', b'q c', b'qa/...', b'qa/a-rather-long-name-of-a-directory-to-make-paths-long']
FILS = [b'qf', b'qa/g.c', b'qa/qb/.h']
VARS = [b'A', b'AB', b'ABC', b'B', b'a', b'LONGNAME_1', b'LONGNAME_2', b'\xff\x80', b'PWD']
PARTS = [b'', b'.', b'..', b'...', b'qa', b'qb', b'x.y', b'q c', b'qf', b'g.c', b'.h', b'qnew', b'a-rather-long-name-of-a-directory-to-make-paths-long']


def value(r):
    return bytes(r.choice(b'xyz=/ ') for _ in range(r.choice([0, 0, 1, 2, 3, 5, 12, 40])))


def path(r, w):
    p = b'/'.join(r.choice(PARTS) for _ in range(r.choice([0, 1, 1, 2, 2, 3, 4])))
    p = r.choice([b'', b'', b'./', w + b'/', w + b'/', b'/zz-none/', b'../']) + p + r.choice([b'', b'', b'/', b'/.', b'/..'])
    return p


def envs(r, c):
    ops = [(53, b'A', b'1', 1), (53, b'A', b'22', 0), (53, b'AB', b'', 1), (54, b'AB=3'), (55, b'A'), (55, b'AB')]
    for envp in ([], [b'AB=0'], [b'A=0', b'AB=x=y']):
        for p in itertools.product(ops, repeat=c.q(2, 4)):
            yield envp, [], list(p) + [(50, b'A'), (50, b'AB'), (50, b'ABC')]
    for s in (b'', b'=', b'=x', b'A', b'A=', b'A==', b'A=x=y', b'ABC=1', b'AB', b'a=q'):
        for envp in ([], [b'A=0', b'AB=1', b'ABC=2']):
            yield envp, [], [(54, s), (50, s), (53, s, b'v', 1), (53, s, b'w', 0), (50, s)]
    for k in range(6):
        a = [bytes(r.choice(b'ab -%\xe3') for _ in range(r.choice([0, 1, 5, 300]))) for _ in range(k)]
        yield [b'A=0'], a, [(50, b'A')]
    for _ in range(c.q(250, 5000)):
        envp = [n + b'=' + value(r) for n in r.sample(VARS, r.randrange(5))]
        l, held, live = [], {}, set(e.split(b'=')[0] for e in envp)
        for _ in range(r.choice([5, 15, 40])):
            f = r.choice([50, 51, 51, 52, 52, 53, 53, 54, 55, 56, 57, 57, 58, 58, 59])
            n = r.choice(VARS)
            if f == 52:
                if held:
                    l.append((52, r.choice(sorted(held))))
                continue
            if f == 51:
                k = r.randrange(8)
                held.pop(k, None)
                if n in live:
                    held[k] = n
                l.append((51, k, n))
                continue
            if f in (53, 54, 55, 59):           # strings of a variable that changes are not asked for any more
                to = r.choice(VARS) if f == 59 else n
                if f == 59 and (n not in live or n == to):
                    continue
                held = {k: v for k, v in held.items() if v != to}
                if f == 55:
                    live.discard(n)
                else:
                    live.add(to)
                if f == 59:
                    held.pop(0, None)
                    l.append((59, 0, n, to))
                    continue
            l.append({50: (50, n), 53: (53, n, value(r), r.randrange(2)), 54: (54, n + b'=' + value(r)), 55: (55, n), 56: (56,),
                      57: (57, None, r.choice([300, 300, 120, 60, -1, -2, -3, r.randrange(1, 90)])), 58: (58, None)}[f])
        yield envp, [], l


def do_env(prog, w, case, seed):
    envp, args, ops = case
    r = random.Random(seed)
    bw = w.encode()
    for d in DIRS:
        os.makedirs(os.path.join(bw, d))
    for f in FILS:
        open(os.path.join(bw, f), 'wb').close()
    base = [x for x in bw.split(b'/') if x]
    dirs = [base[:i] for i in range(1, len(base) + 1)] + [base + d.split(b'/') for d in DIRS]
    ops = [tuple(path(r, bw) if x is None else x for x in op) for op in ops]
    # sizes around the length of the result
    ops = [(57, op[1], {-1: len(bw) + 3, -2: len(bw), -3: len(os.path.normpath(bw + b'/' + op[1])) + r.randrange(3)}.get(op[2], op[2])) if op[0] == 57 else op for op in ops]
    ops = [op for op in ops if not (op[0] == 57 and not 0 < op[2] <= 390)]
    sc = [97]
    for op in ops:
        sc += [op[0]]
        for x in op[1:]:
            sc += bs(x) if isinstance(x, bytes) else [x]
    env = dict(e.split(b'=', 1) for e in envp)
    rc, lg = run(prog, w, sc, args=args, env=env)
    ev = []

    def event(f, **kw):
        e = dict(f=f, v=0, null=False, str=[], name=[], value=[], ow=False, path=[], size=0, env=[], k=0, tail=True, to=[], argc=0, args=[], envp=[])
        e.update({k: list(v) if isinstance(v, bytes) else v for k, v in kw.items()})
        return e
    try:
        lg.op(97)
        e = event('main', argc=lg.n(), args=lg.table(), envp=lg.table())
        e['env'] = lg.table()
        e['args'][0] = []
        ev.append(e)
        for op in ops:
            f = op[0]
            lg.op(f)
            if f in (50, 51, 52, 56):
                s = lg.list()
                e = event({50: 'getEnv', 51: 'hold', 52: 'held', 56: 'getWd'}[f], null=s is None, str=s or [])
                e['name'] = list(op[1 + (f == 51)]) if f in (50, 51) else []
                e['k'] = op[1] if f in (51, 52) else 0
            elif f == 53:
                e = event('setEnv', name=op[1], value=op[2], ow=bool(op[3]), v=lg.n())
            elif f == 54:
                e = event('putEnv', str=op[1], v=lg.n())
            elif f == 55:
                e = event('unsetEnv', name=op[1], v=lg.n())
            elif f == 57:
                e = event('absPath', path=op[1], size=op[2], v=lg.n())
                t = [lg.n() for _ in range(400)]
                e['tail'] = all(x == 85 for x in t[op[2]:])
                e['str'] = t[:t.index(0)] if 0 in t[:op[2]] else t
            elif f == 58:
                e = event('chDir', path=op[1], v=lg.n())
            elif f == 59:
                e = event('alias', name=op[2], to=op[3], v=lg.n())
            e['env'] = lg.table()
            ev.append(e)
        lg.op(-1)
        if rc:
            raise Cut
    except Cut:
        ev.append(event('died with status %d' % rc))
    sp = lambda l: [list(x) for x in l]
    return dict(envp=sp(envp), wd=list(bw), dirs=[sp(d) for d in dirs], fils=[sp(base + f.split(b'/')) for f in FILS], args=[[]] + sp(args), ev=ev)


# ---- memory ----
KIND = ['i', 'c', 'b', 'r', 'p']


def mems(r, c):
    for n in (-1, -2, -(1 << 31), -5, -17):
        for f in (60, 61, 62, 63):
            yield [(f, 0, n - 3, 3)]
    for n in (-1, -7, -(1 << 31)):
        yield [(83, 0, n)]
    for a, b in ((-1, 1), (1, -1), (-5, 7), (3, -(1 << 31))):
        yield [(84, 0, a, b)]
    for f, n in ((60, 0x40000000), (60, 0x3fffffff), (60, 0x40000001), (61, 0x7fffffff), (62, 0x7ffffffe), (63, 0x20000000), (63, 0x20000001)):
        yield [(f, 0, n - 5, 5), (f + 6, 0, n - 1, 1), (f + 6, 0, 0, 1)] if f != 63 else [(f, 0, n - 5, 5)]
    for _ in range(c.q(160, 4000)):
        l, size, cells = [], {}, {}
        for _ in range(r.choice([20, 60])):
            g, k = r.randrange(5), r.randrange(8)
            x = r.random()
            if (g, k) not in size or x < .1:
                if (g, k) in size and r.random() < .7:
                    l.append((76 + g, k))
                    del size[g, k]
                    cells = {a: v for a, v in cells.items() if a[:2] != (g, k) and v != (g, k)}
                    continue
                n = r.choice([1, 2, 3, 5, 8, 13, 40])
                z = r.randrange(n + 1)
                cells = {a: v for a, v in cells.items() if a[:2] != (g, k) and v != (g, k)}
                size[g, k] = 3 if g == 4 else n
                if g == 4:
                    f = r.choice([64, 65])
                    l.append((f, k))
                    if f == 65:
                        cells.update({(4, k, i): 0 for i in range(3)})
                else:
                    l.append((60 + g, k, z, n - z))
                if g < 3:                   # all cells at once, so that neighbours overlap visibly
                    for i in range(n):
                        v = r.choice([0, 1, 255, 100]) if g else r.choice([0, -1, 1 << 30, 12345, -(1 << 31)])
                        if g == 2:
                            v &= 1
                        l.append((66 + g, k, i, v))
                        cells[g, k, i] = v
                continue
            i = r.randrange(size[g, k])
            if x < .45:
                if g == 4:
                    j = r.choice([q for (p, q) in size if p == 4])
                    l.append((70, k, r.choice([0, -1, 70000, 1 << 30]), r.randrange(256), j))
                    cells.update({(4, k, 0): 0, (4, k, 1): 0, (4, k, 2): (4, j)})
                elif g == 3:
                    js = [q for (p, q) in size if p == 1]
                    if js:
                        j = r.choice(js)
                        l.append((69, k, i, j))
                        cells[g, k, i] = (1, j)
                else:
                    l.append((66 + g, k, i, r.randrange(2) if g == 2 else r.randrange(256) if g else r.randrange(-(1 << 31), 1 << 31)))
                    cells[g, k, i] = 0
            elif g == 4:
                if all((4, k, i) in cells for i in range(3)):
                    l.append((75, k))
            elif (g, k, i) in cells:
                l.append((71 + g, k, i))
        yield l
    for _ in range(c.q(6, 60)):
        l = []
        for _ in range(6):
            l += [(81, 0, r.choice([1, 2, 3, 70000, -1]))] + [(82, 0)] * r.randrange(1, 5)
        yield l


def do_mem(prog, w, ops):
    sc = []
    for op in ops:
        sc += list(op)
    rc, lg = run(prog, w, sc)
    said = len(open(w + '/ERR', 'rb').read()) > 0
    ev = []

    def event(f, kind='i', k=0, **kw):
        e = dict(f=f, kind=kind, k=k, len=0, zero=False, nil=[], i=0, v=[0, 0], st='ret', said=said)
        e.update(kw)
        ev.append(e)
    stop = False
    try:
        for op in ops:
            f, k = op[:2]
            lg.op(f)
            if f in (60, 61, 62, 63):
                n = op[2] + op[3]
                try:
                    st = 'ret' if lg.n() == 7 else 'odd'
                except Cut:
                    st, stop = 'exit %d' % rc, True
                if n < 0 or n > 1 << 20:
                    event('huge' if n < 0 else 'large', KIND[f - 60], k, len=n, st=st)
                else:
                    event('alloc', KIND[f - 60], k, len=n)
                if stop:
                    break
            elif f in (64, 65):
                event('alloc', 'p', k, len=3, zero=f == 65, nil=[[0, 0], [0, 0], [65535, 65534]])
            elif f in (83, 84):
                try:
                    lg.n()
                    st = 'ret'
                except Cut:
                    st, stop = 'exit %d' % rc, True
                event('huge', st=st)
                if stop:
                    break
            elif 66 <= f <= 69:
                event('write', KIND[f - 66], k, i=op[2], v=pair(op[3]))
            elif f == 70:
                for i in range(3):
                    event('write', 'p', k, i=i, v=pair(op[2 + i]))
            elif 71 <= f <= 74:
                event('read', KIND[f - 71], k, i=op[2], v=pair(lg.n()))
            elif f == 75:
                for i in range(3):
                    event('read', 'p', k, i=i, v=pair(lg.n()))
            elif 76 <= f <= 80:
                event('free', KIND[f - 76], k)
            elif f == 81:
                event('srand', v=pair(op[2]))
            elif f == 82:
                event('rand', v=pair(lg.n()))
        if not stop:
            lg.op(-1)
            event('end', st='exit %d' % rc)
    except Cut:
        event('died with status %d' % rc)
    return dict(ev=ev)


def check(c):
    r = random.Random('l08/%d' % c.seed)
    progs = {}
    for mode in ('-rtc', '-nortc'):
        host = 'src'
        progs[mode] = os.path.join(clib.build(c, 'lib' + mode, clibdrv.PROGRAM, mode, host, harness=clibdrv.HARNESS), 'prog')
    scratch = os.path.realpath(os.path.join(c.work, 'x'))
    os.makedirs(scratch)
    todo = []
    for mod, gen, do in (('Str', strings, do_strings), ('CFile', files, do_files), ('CEnv', envs, None), ('CMem', mems, do_mem)):
        for k, case in enumerate(gen(r, c)):
            for mode in (('-rtc', '-nortc') if c.tier == 'thorough' or mod != 'Str' else (('-rtc', '-nortc')[k % 2],)):
                todo.append((mod, do, case, mode, len(todo), r.randrange(1 << 30)))

    def one(a):
        mod, do, case, mode, i, seed = a
        w = os.path.join(scratch, 'r%d' % i)
        os.makedirs(w)
        t = do(progs[mode], w, case) if do else do_env(progs[mode], w, case, seed)
        shutil.rmtree(w)
        t['id'] = i
        return mod, mode, t
    by, mode = {}, {}
    with cf.ThreadPoolExecutor(8) as ex:
        for mod, md, t in ex.map(one, todo):
            by.setdefault(mod, []).append(t)
            mode[t['id']] = md
    for mod, ts in by.items():
        bad = trace.validate(c, mod, ts)
        ix = {t['id']: t for t in ts}
        for i, k in sorted(bad.items()):
            e = ix[i]['ev'][k] if 0 <= k < len(ix[i]['ev']) else {}
            show = {a: bytes(v).decode('latin1') if isinstance(v, list) and v and all(isinstance(x, int) and 0 <= x < 256 for x in v) and a in
                    ('text', 'name', 'str', 'value', 'path', 'mode', 'said', 'to') else v for a, v in e.items()}
            c.violation('%s/%s' % (mode[i], e.get('f')), 'cm2c %s: call %d of the history is not as specified: %s' % (mode[i], k, str(show)[:1500]),
                        {'history.json': json.dumps(ix[i])})
        c.sample(mod + ' ' + json.dumps(ts[len(ts) // 2])[:900])
    c.assumptions += ['not decided: fgetc at the end of a file, reading between writing without a seek, symbolic links, names with = in unsetEnv, values of rand',
                      'the library of the C compiler and the file system of the sandbox']
    return 'model_checking'
