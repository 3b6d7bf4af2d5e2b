"""The TaC run-time library, compiled and assembled from the working tree, on the simulator lib/tacsim.c.

  m = Machine(image)            a fresh process
  r = m.call('_malloc', 10)     -> Result('ret', value) / ('exit', status) / ('fault', text)

System calls are answered by m.kernel(no, a, b, c); a call that breaks the calling convention (SP, FP, register
variables) is a fault."""
import ctypes, os, random, shutil, subprocess, tempfile
import asm, build

OPS = ('LD ST ADD ADDS SUB CMP AND OR XOR MUL DIV MOD SHLA SHLL SHRA SHRL JMP JLT JLE JZ JGE JGT JNZ JC JNC JHI JLS JM JNM '
       'PUSH POP CALL RET RETI SVC IN OUT EI DI HALT NO').split()
ON = {n: i for i, n in enumerate(OPS)}
MODES = {'': 0, 'i': 1, 'r': 2, 'a': 3, 'x': 4, 'b': 5}
DBASE, TOP = 0x8000, 0xF000
LIB = ['SrcTac/crt0.s', 'SrcTac/syslib.s', 'SrcTac/wrap-syslib.cmm', 'SrcTac/stdio.cmm', 'SrcTac/stdlib.cmm',
       'SrcTac/printf.cmm', 'SrcCmm/ctype.cmm', 'SrcCmm/string.cmm', 'SrcTac/environ.cmm']


class Ins(ctypes.Structure):
    _fields_ = [(n, ctypes.c_int) for n in ('op', 'mode', 'r', 'x', 'v')]


def simlib(work):
    so = os.path.join(work, 'tacsim.so')
    src = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'tacsim.c')
    subprocess.run(['gcc', '-O2', '-Wall', '-shared', '-fPIC', '-o', so, src], check=True)
    return so


def library(bins, opts=(), extra=(), dbase=DBASE, lib=LIB):
    """the assembler image of the library, compiled with translator bins[...]/c--"""
    a = asm.Asm(dbase=dbase)
    root = os.path.join(build.REPO, 'lib')
    for f in lib:
        p = os.path.join(root, f)
        if f.endswith('.s'):
            text = open(p, encoding='utf-8').read()
        else:
            text = compile_(bins, p, opts)
        a.add(text, os.path.basename(f))
    for name, text in extra:
        a.add(text, name)
    if '_main' not in a.labels:
        a.add('_main\tRET\n', 'main')
    a.add('__end\tWS\t0\n', 'end')
    im = a.image({})
    im['sym'] = a.sym
    im['where'] = [s[3] for s in a.stm if s[0] not in asm.DATA]
    return im


def compile_(c, path, opts=()):
    p = subprocess.run(['cpp', '-nostdinc', '-I' + os.path.join(build.REPO, 'include'), path], stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if p.returncode:
        raise RuntimeError('cpp: ' + p.stderr.decode('utf-8', 'replace'))
    q = subprocess.run([c] + list(opts), input=p.stdout, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=60)
    if q.returncode:
        raise RuntimeError('c-- rejects %s: %s' % (path, q.stderr.decode('utf-8', 'replace')))
    return q.stdout.decode('latin-1')


class Fault(Exception):
    pass


class Exit(Exception):
    pass


class Machine:
    def __init__(self, so, im):
        # a copy of the shared object, so that each machine has variables of its own
        self.tmp = tempfile.NamedTemporaryFile(suffix='.so', dir=os.path.dirname(so), delete=False)
        self.tmp.close()
        shutil.copy(so, self.tmp.name)
        self.l = ctypes.CDLL(self.tmp.name)
        os.unlink(self.tmp.name)
        g = lambda t, n: t.in_dll(self.l, n)
        n = len(im['code'])
        code = g(Ins * 20000, 'code')
        for k, i in enumerate(im['code'], 1):
            c = code[k]
            c.op, c.mode, c.r, c.x, c.v = ON[i['o']], MODES[i['m']], i['r'], i['x'], i['v']
        g(ctypes.c_int, 'ncode').value = n
        g(ctypes.c_int, 'dbase').value = im['dbase']
        g(ctypes.c_int, 'top').value = TOP
        self.mem = g(ctypes.c_ubyte * 65536, 'mem')
        self.R = g(ctypes.c_ushort * 15, 'R')
        self.pc, self.steps = g(ctypes.c_int, 'pc'), g(ctypes.c_int, 'steps')
        self.fpc, self.faddr = g(ctypes.c_int, 'faultpc'), g(ctypes.c_int, 'faultaddr')
        self.visited = g(ctypes.c_int * 20000, 'visited')
        self.F = [g(ctypes.c_int, 'f' + c) for c in 'znvc']
        self.im = im
        self.data = bytes(b for w in im['data'] for b in (w >> 8, w & 255))
        self.end = im['sym']['__end'][1]
        self.rnd = random.Random(1)
        self.limit, self.svcs = 2000000, 3000     # instructions and system calls a call may take
        self.ends = 0                             # calls that did not end; after some, calls are not made any more
        self.kernel = lambda no, a, b, c: 0
        self.io = lambda op, p, v: 0

    def reset(self, seed=0, sp=TOP - 1024):
        """a fresh process: data as assembled, everything else arbitrary"""
        self.rnd = random.Random(seed)
        ctypes.memmove(self.mem, self.rnd.randbytes(65536), 65536)
        ctypes.memmove(ctypes.addressof(self.mem) + self.im['dbase'], self.data, len(self.data))
        for i in range(15):
            self.R[i] = self.rnd.randrange(65536)
        self.R[14] = sp

    def sym(self, n):
        return self.im['sym'][n][1]

    def word(self, a, v=None):
        if v is None:
            return self.mem[a] << 8 | self.mem[a + 1]
        self.mem[a], self.mem[a + 1] = v >> 8 & 255, v & 255

    def str(self, a):
        r = []
        while self.mem[a]:
            r.append(self.mem[a])
            a += 1
            if a >= 65536:
                raise Fault('string without end')
        return bytes(r)

    def put(self, a, bs):
        ctypes.memmove(ctypes.addressof(self.mem) + a, bytes(bs), len(bs))

    def get(self, a, n):
        return bytes(self.mem[a:a + n])

    def start(self, fn, args=()):
        """call of fn; raises Exit(status) / Fault(text)"""
        R = self.R
        sp0 = R[14]
        for i in (1, 2, 3):
            R[i] = self.rnd.randrange(65536)
        for x in reversed(args):
            R[14] -= 2
            self.word(R[14], x & 0xffff)
        R[14] -= 2
        self.word(R[14], 0)
        keep = [R[i] for i in range(4, 14)]
        self.pc.value = self.sym(fn)
        self.steps.value = 0
        self.go()
        if R[14] != sp0 - 2 * len(args) or [R[i] for i in range(4, 14)] != keep:
            raise Fault('%s does not give back the stack or registers' % fn)
        R[14] = sp0
        return R[1]

    def go(self):
        R = self.R
        n = 0
        if self.ends >= 20:
            raise Fault('no end (not called any more)')
        while True:
            r = self.l.run(self.limit)
            if r == 0:
                return
            if r == 1:
                n += 1
                if n > self.svcs:
                    self.ends += 1
                    raise Fault('no end: %d system calls' % n)
                no = R[1]
                try:
                    v = self.kernel(no, R[2], R[3], R[4]) & 0xffff
                except (KeyError, IndexError, TypeError) as e:
                    raise Fault('system call %d of something that is not there (%s)' % (no, e))
                R[1] = v
            elif r in (2, 3):
                i = self.im['code'][self.pc.value - 2]
                port = R[i['x']]
                if r == 2:
                    R[i['r']] = self.io('in', port, None) & 0xffff
                else:
                    self.io('out', port, R[i['r']])
            else:
                self.ends += r != -1
                raise Fault('%s at %s, address %d' % ('fault' if r == -1 else 'no end', self.im['where'][self.fpc.value - 1]
                                                      if 0 < self.fpc.value <= len(self.im['where']) else '?', self.faddr.value))
