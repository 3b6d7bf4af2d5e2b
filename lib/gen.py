"""Random C-- programs as abstract syntax trees, with a printer to C-- source.

The same tree is given to the TLA+ source machine (spec/Cmm.tla) as JSON and,
printed, to the compilers under test.  Operands that are evaluated in no
particular order never conflict (see Ex.R / Ex.W), loops and recursion are
bounded, and accesses are kept inside their objects.
"""
import random, re, zlib

PREC = {'mul': 13, 'div': 13, 'mod': 13, 'add': 12, 'sub': 12, 'shl': 11, 'shr': 11,
        'lt': 10, 'le': 10, 'gt': 10, 'ge': 10, 'eq': 9, 'ne': 9, 'and': 8, 'xor': 7,
        'or': 6, 'land': 5, 'lor': 4}
SYM = {'mul': '*', 'div': '/', 'mod': '%', 'add': '+', 'sub': '-', 'shl': '<<', 'shr': '>>',
       'lt': '<', 'le': '<=', 'gt': '>', 'ge': '>=', 'eq': '==', 'ne': '!=', 'and': '&',
       'xor': '^', 'or': '|', 'land': '&&', 'lor': '||'}
ARITH = ['add', 'sub', 'mul', 'div', 'mod', 'and', 'or', 'xor', 'shl', 'shr']
CMP = ['lt', 'le', 'gt', 'ge', 'eq', 'ne']


class Ex:
    """An expression: node number, type, text, precedence, effects."""
    __slots__ = ('n', 't', 's', 'p', 'R', 'W', 'c', 'ch')

    def __init__(self, n, t, s, p, R=frozenset(), W=frozenset(), c=None):
        self.n, self.t, self.s, self.p, self.R, self.W = n, t, s, p, R, W
        self.c = c          # value, if the compiler can know it
        self.ch = None      # constants of a chain of one operator (see fold2)


def conflict(a, b):
    return bool(a.W & (b.R | b.W)) or bool(b.W & a.R)


ABSORB = {'mul': 0, 'and': 0, 'or': -1, 'land': 0, 'lor': 1}


def wrap(v, mode):
    b = 1 << (mode - 1)
    return ((v + b) % (2 * b)) - b


def arith(k, a, b, mode):
    """value of a constant expression, None if there is none"""
    try:
        v = {'add': lambda: a + b, 'sub': lambda: a - b, 'mul': lambda: a * b,
             'and': lambda: a & b, 'or': lambda: a | b, 'xor': lambda: a ^ b,
             'shl': lambda: a << b if 0 <= b < mode else None,
             'shr': lambda: a >> b if 0 <= b < mode else None,
             'div': lambda: int(abs(a) // abs(b)) * (1 if (a < 0) == (b < 0) else -1),
             'mod': lambda: abs(a) % abs(b) * (1 if a >= 0 else -1),
             'lt': lambda: int(a < b), 'le': lambda: int(a <= b), 'gt': lambda: int(a > b),
             'ge': lambda: int(a >= b), 'eq': lambda: int(a == b), 'ne': lambda: int(a != b),
             'land': lambda: a & b, 'lor': lambda: a | b}[k]()
    except ZeroDivisionError:
        return None
    return None if v is None else wrap(v, mode)


def fold2(k, a, b, mode):
    """(constant value, chain) of a k b: what the optimizer may know about it"""
    W = bool(a.W or b.W)
    if a.c is not None and b.c is not None:
        return arith(k, a.c, b.c, mode), None
    ch = None
    if k in ABSORB:
        cs = []
        for x in (a, b):
            if x.c is not None:
                cs.append(x.c)
            elif x.ch and x.ch[0] == k and x.ch[1] is not None:
                cs.append(x.ch[1])
        v = cs[0] if cs else None
        for y in cs[1:]:
            v = arith(k, v, y, mode)
        if v == ABSORB[k]:
            return v, (k, v, W)
        ch = (k, v, W)
    if k == 'mod' and b.c == 1:
        return 0, None
    return None, ch


TOKENS = re.compile(r'''\x01\d+\x01|/\*.*?\*/|//[^\n]*|"(?:[^"\\]|\\.)*"|'(?:[^'\\]|\\.)*'|\.\.\.|\w+|.|\n''', re.S)


def hash32(x):
    return zlib.crc32(repr(x).encode())


class Prog:
    def __init__(self, pid, mode=16, full=0.5, rnd=None):
        self.id = pid
        self.mode = mode
        self.rnd = rnd or random.Random(pid)
        self.full = full            # probability of redundant parentheses
        self.nodes = []
        self.funcs = []
        self.glob = []
        self.objs = []
        self.lines = []             # source text
        self.order = []             # (assembly name, further name table entries)
        self.heapwords = 0
        self.stamped = 0
        self.inp = [3, -7, 100, 0, 255, -32768 if mode == 16 else -4000, 1, 42]
        self.main = 0
        self.vmain = 0
        self.odd = 0
        # programs for the C translators: the tokens of an expression may be on different lines
        self.spread = (0, 0, 0.02, 0.1, 0.4)[hash32(pid) % 5] if mode == 32 else 0
        self.srctext = None

    # ---- nodes -------------------------------------------------------------
    def nd(self, k, **kw):
        kw['k'] = k
        self.nodes.append(kw)
        return len(self.nodes)

    def par(self, e, need):
        """text of e where an expression of precedence >= need is required"""
        if e.p < need or (e.p < 15 and self.rnd.random() < self.full):
            return '(' + e.s + ')'
        return e.s

    def const(self, v):
        n = self.nd('const', v=v)
        if v < 0:
            return Ex(n, 'int', '-%s' % self.spell(-v), 14, c=v)
        return Ex(n, 'int', self.spell(v), 15, c=v)

    def spell(self, v):
        r = self.rnd.random()
        return '0x%x' % v if r < 0.1 else '0X%X' % v if r < 0.13 else '0%o' % v if r < 0.2 and v \
            else '%d' % v

    def cconst(self, v):
        n = self.nd('const', v=v)
        return Ex(n, 'char', "'%s'" % self.spellc(v, "'"), 15, c=v)

    def spellc(self, v, q, nxt=''):
        """character v in a literal enclosed in q, followed by text nxt"""
        r = self.rnd.random()
        if 32 <= v < 127 and chr(v) not in "'\"\\" and r < 0.9:
            return chr(v)
        e = {10: 'n', 13: 'r', 9: 't', 39: "'", 34: '"', 92: '\\'}.get(v)
        if e and r < 0.8:
            return '\\' + e
        if r < 0.93 and nxt[:1] not in tuple('0123456789abcdefABCDEF'):
            return '\\x%02x' % v
        return '\\%03o' % v if r < 0.97 or nxt else '\\%o' % v

    def spells(self, codes):
        """a string literal"""
        t = ''
        for c in reversed(codes):
            t = self.spellc(c, '"', t or '"') + t
        return '"' + t + '"'

    def bconst(self, v):
        return Ex(self.nd('const', v=v), 'boolean', 'true' if v else 'false', 15, c=v)

    def op2(self, k, a, b, t='int'):
        c, ch = fold2(k, a, b, self.mode)
        if (a.W or b.W) and c is not None:
            # the optimizer may drop an operand whose value does not matter;
            # its side effects are not specified then
            k = 'eq' if t == 'boolean' else 'xor'
            c, ch = None, None
        n = self.nd(k, a=a.n, b=b.n, f=0)
        if k in ('lt', 'le', 'gt', 'ge'):
            if b.c == 0:
                self.mark(a.n)
            if a.c == 0:
                self.mark(b.n)
        p = PREC[k]
        s = self.par(a, p) + self.sp() + SYM[k] + self.sp() + self.par(b, p + 1)
        e = Ex(n, t, s, p, a.R | b.R, a.W | b.W, c)
        e.ch = ch
        return e

    def sp(self):
        if self.odd and self.rnd.random() < 0.3:
            return self.rnd.choice(['  ', '\t', ' /* x */ ', ' /**/', ' /* * / " */ '])
        return ' '

    def mark(self, n, f=1):
        """the value of node n is (part of) an operand of an ordered comparison with 0"""
        d = self.nodes[n - 1]
        k = d['k']
        if k in ARITH or k in ('neg', 'bnot', 'plus'):
            if k in ('add', 'sub') and any(
                    self.nodes[d[o] - 1]['k'] in ARITH + ['neg', 'plus', 'comma', 'ass']
                    for o in 'ab'):
                f = 2       # a chain of + and - the compiler may reassociate
            if k in ('add', 'sub', 'mul', 'neg', 'shl'):
                d['f'] = max(f, d['f'])
            self.mark(d['a'], f)
            if 'b' in d:
                self.mark(d['b'], f)
        elif k == 'ord':
            self.mark(d['a'])
        elif k in ('comma', 'ass'):
            self.mark(d['b'])

    def op1(self, k, a, t=None):
        if k in ('chr', 'bool') and a.t == 'char':
            a = self.op1('plus', a, 'int')
        n = self.nd(k, a=a.n, f=0)
        if k in ('chr', 'bool', 'ord'):
            t = {'chr': 'char', 'bool': 'boolean', 'ord': 'int'}[k]
            e = Ex(n, t, '%s(%s)' % (k, a.s), 15, a.R, a.W)
            if a.c is not None:
                e.c = a.c & {'chr': 255, 'bool': 1, 'ord': -1}[k]
            return e
        t = t or ('boolean' if k == 'not' else 'int')
        sy = {'neg': '-', 'bnot': '~', 'not': '!', 'plus': '+'}[k]
        s = self.par(a, 14)
        if s[0] == sy and sy in '+-':
            s = '(' + s + ')'
        e = Ex(n, t, sy + s, 14, a.R, a.W)
        if a.c is not None:
            e.c = wrap({'neg': -a.c, 'bnot': ~a.c, 'not': 1 - a.c, 'plus': a.c}[k], self.mode)
        elif k == 'plus':
            e.ch = a.ch
        return e

    def comma(self, a, b):
        n = self.nd('comma', a=a.n, b=b.n)
        return Ex(n, b.t, self.par(a, 1) + ', ' + self.par(b, 3), 1, a.R | b.R, a.W | b.W)

    def assign(self, l, r):
        """l = r (r already converted); l is an lvalue expression"""
        n = self.nd('ass', a=l.n, b=r.n)
        loc = self.lvloc(l.n)
        d = self.nodes[l.n - 1]
        lr = l.R - {loc} if d['k'] in ('loc', 'prm', 'gl') else l.R
        return Ex(n, l.t, self.par(l, 14) + ' = ' + self.par(r, 3), 3, lr | r.R,
                  l.W | r.W | {loc})

    def lvloc(self, n):
        d = self.nodes[n - 1]
        if d['k'] == 'loc':
            return ('l', d['v'])
        if d['k'] == 'prm':
            return ('p', d['v'])
        if d['k'] == 'gl':
            return ('g', d['v'])
        return ('m', d['cls'])

    def var(self, v):
        """v = dict(k=loc|prm|gl, v=slot, t=type, name=...)"""
        n = self.nd(v['k'], v=v['v'])
        return Ex(n, v['t'], v['name'], 15, frozenset([self.lvloc(n)]))

    def idx(self, a, i):
        et = a.t[:-2]
        cls = et if et in ('int', 'char', 'boolean') else 'ref'
        n = self.nd('idx', a=a.n, b=i.n, cls=cls)
        return Ex(n, et, '%s[%s]%s' % (self.par(a, 15), self.par(i, 3) if i.p < 3 else i.s, self.mark(n)), 15,
                  a.R | i.R | {('m', cls)}, a.W | i.W)

    def dot(self, a, sname, k, fname, ft):
        n = self.nd('dot', a=a.n, v=k, cls='%s.%d' % (sname, k))
        return Ex(n, ft, '%s.%s%s' % (self.par(a, 15), fname, self.mark(n)), 15,
                  a.R | {('m', '%s.%d' % (sname, k))}, a.W)

    def call(self, f, args, u=1, per=1):
        n = self.nd('call', v=f['no'], args=[a.n for a in args], u=u, per=per)
        R, W = set(f['R']), set(f['W'])
        for a in args:
            R |= a.R
            W |= a.W
        s = '%s(%s)' % (f['name'], ', '.join(self.par(a, 3) if a.p < 3 else a.s for a in args))
        return Ex(n, f['t'], s, 15, frozenset(R), frozenset(W))

    def mark(self, n):
        """remember where in the text the access n is"""
        return '\x01%d\x01' % n if self.mode == 32 else ''

    # ---- statements: return node; text appended to self.lines ---------------
    def json(self):
        self.source()
        nodes = [{k: v for k, v in d.items() if k != 'cls'} for d in self.nodes]
        return dict(id=self.id, mode=self.mode, nodes=nodes, funcs=[f['j'] for f in self.funcs],
                    glob=self.glob, objs=[{'e': o} for o in self.objs], main=self.main,
                    inp=self.inp, vmain=self.vmain)

    def source(self):
        if self.srctext is None:
            self.srctext = '\n'.join(self.lines) + '\n'
            if self.mode == 32:
                self.srctext = self.breaklines(self.srctext)
        return self.srctext

    def breaklines(self, text):
        """end lines at some of the token boundaries; an access is on the line of its last token"""
        r, out, ln = random.Random(hash32(self.id) + 1), [], 1
        for t in TOKENS.findall(text):
            if t[0] == '\x01':
                self.nodes[int(t[1:-1]) - 1]['ln'] = ln
                continue
            if r.random() < self.spread:
                t = '\n' if t == ' ' else '\n' + t if t in ('.', '[', ']', ';') else t + '\n' if t in '([,' else t
            out.append(t)
            ln += t.count('\n')
        return ''.join(out)


REF = 1073741824
EXT = [('put', 'void', ['int'], ['i'], 'v'),
       ('putS', 'void', ['char[]'], ['s'], 'v'),
       ('get', 'int', [], [], 'i'),
       ('put3', 'void', ['int', 'char', 'boolean'], ['i', 'i', 'i'], 'v'),
       ('putv', 'void', ['int', '...'], ['i'], 'v'),
       ('newI', 'int[]', ['int'], ['i'], 'm'),
       ('newC', 'char[]', ['int'], ['i'], 'm'),
       ('newR', 'void[]', ['int'], ['i'], 'm'),
       ('newS', 'void[]', ['int'], ['i'], 'm')]
ESZ = {'newI': 2, 'newC': 1, 'newR': 2, 'newS': 1}      # bytes per unit of the argument
CLS = ['int', 'char', 'boolean', 'ref']
BOUND = {'int[][]': 4, 'char[][]': 4, 'int[][][]': 2}
ALLX = frozenset([('x',)])


class Gen(Prog):
    """A whole random program."""

    def __init__(self, pid, rnd, mode=16, profile=None):
        full = rnd.choice([0, 0, 0.3, 1])
        super().__init__(pid, mode, full, rnd)
        self.depth0 = rnd.choice([1, 2, 2, 3, 3, 4])
        self.profile = profile or {}
        self.indent = 0
        self.scope = []            # visible variables
        self.fn = None
        self.nslot = 0
        self.uid = 0
        self.loopd = 0
        self.stmts = 0
        self.pure = False
        self.shadow = False
        self.blk = 0
        self.dead, self.inuse = [], set()
        self.last = 0
        self.odd = rnd.random() < 0.2
        self.build()

    # ---- text helpers ----
    def out(self, s):
        self.lines += ('  ' * self.indent + s).split('\n')
        self.stamp()

    def stamp(self):
        """the nodes made since the last call are on the current line"""
        for d in self.nodes[self.stamped:]:
            d.setdefault('ln', len(self.lines))
        self.stamped = len(self.nodes)

    def name(self, p):
        self.uid += 1
        return '%s%d' % (p, self.uid)

    # ---- declarations ----
    def addext(self):
        for (nm, t, pts, kinds, rk) in EXT:
            f = dict(no=len(self.funcs) + 1, name=nm, t=t, pts=pts, R=ALLX, W=ALLX,
                     j=dict(ext=1, nl=0, body=0, void=1 if t == 'void' else 0, args=kinds, rk=rk,
                            name=nm, esz=ESZ.get(nm, 0), va=int(pts[-1:] == ['...']),
                            mw=int(nm != 'newC'), mu=2 if nm == 'newS' else 1))
            self.funcs.append(f)
            setattr(self, 'f_' + nm, f)
            ps = ', '.join(x if x == '...' else '%s p%d' % (x, i) for i, x in enumerate(pts))
            self.out('public %s %s(%s);' % (t, nm, ps))
            self.order.append(('_' + nm, len(pts)))

    def addglob(self, t, val, init):
        nm = self.name('g')
        self.glob.append(val)
        v = dict(k='gl', v=len(self.glob), t=t, name=nm)
        self.gv.append(v)
        pub = self.rnd.choice(['', '', 'public '])
        self.order.append((('_' if pub else '.') + nm, 0))
        self.out('%s%s %s%s;' % (pub, t, nm, '' if init is None else ' = ' + init))
        return v

    def newobj(self, elems):
        self.objs.append(elems)
        return REF + len(self.objs)

    def rint(self):
        r = self.rnd
        if self.mode == 32:
            return r.choice([0, 1, 2, 3, 4, 5, 7, 8, 10, 16, 31, 64, 100, 127, 255, 256, -1, -2,
                             -5, -128, 1000, r.randint(-3000, 3000)])
        return r.choice([0, 1, 2, 3, 4, 5, 7, 8, 10, 15, 16, 31, 32, 64, 100, 127, 128, 255, 256,
                         257, 1000, 4096, 16384, 32767, -1, -2, -3, -8, -100, -128, -256, -32767,
                         -32768, r.randint(-32768, 32767), r.randint(-300, 300),
                         r.randint(-300, 300)])

    def rchar(self):
        r = self.rnd
        return r.choice([r.randint(0, 255), r.randint(32, 126), r.choice([0, 9, 10, 13, 34, 39, 92, 127, 128, 255])])

    def cinit(self, v):
        """a constant expression for the initial value v of an int"""
        r = self.rnd
        c = r.random()
        if c < 0.6 or self.mode == 32 and abs(v) > 2000:
            return '%d' % v
        if c < 0.7 and v >= 0:
            return self.spell(v)
        if c < 0.8:
            k = r.randint(1, 9)
            return '%d+%d*%d' % (v - 3 * k, k, 3) if abs(v) < 32000 else '%d' % v
        if c < 0.9:
            return '-(%d)' % -v if v != -32768 else '-32768'
        return '(%d)' % v

    def globals_(self):
        r = self.rnd
        P = self.profile
        for _ in range(r.randint(2, 4)):
            v = self.rint()
            if r.random() < 0.15:
                self.addglob('int', 0, None)
            else:
                self.addglob('int', v, self.cinit(v))
        v = self.rchar()
        self.addglob('char', v, "'%s'" % self.spellc(v, "'"))
        v = r.randint(0, 1)
        self.addglob('boolean', v, r.choice(['true', '1 < 2', '!false'] if v else ['false', '2 == 1', '!true']))
        for k in range(2):
            e = [self.rint() for _ in range(8)]
            self.addglob('int[]', self.newobj(e), '{%s}' % ', '.join(map(self.cinit, e)))
        e = [self.rchar() for _ in range(8)]
        self.addglob('char[]', self.newobj(e),
                     '{%s}' % ', '.join("'%s'" % self.spellc(x, "'") for x in e))
        e = [r.randint(0, 1) for _ in range(8)]
        self.addglob('boolean[]', self.newobj(e), '{%s}' % ', '.join(('false', 'true')[x] for x in e))
        rows = [[self.rint() for _ in range(8)] for _ in range(4)]
        o = self.newobj([self.newobj(x) for x in rows])
        self.addglob('int[][]', o,
                     '{%s}' % ', '.join('{%s}' % ', '.join(map(str, x)) for x in rows))
        c = [r.randint(32, 126) if r.random() < .8 else r.randint(1, 255) for _ in range(7)]
        self.strg = self.addglob('char[]', self.newobj(c + [0]), self.spells(c))
        if self.mode == 32:         # a string constant must not be written to
            self.gv.remove(self.strg)
        if r.random() < 0.5:
            rows = [[self.rchar() for _ in range(8)] for _ in range(4)]
            o = self.newobj([self.newobj(x) for x in rows])
            self.addglob('char[][]', o, '{%s}' % ', '.join(
                '{%s}' % ', '.join("'%s'" % self.spellc(y, "'") for y in x) for x in rows))
        if r.random() < 0.4:
            o = self.newobj([self.newobj([self.newobj([0] * 8) for _ in range(4)]) for _ in range(2)])
            self.addglob('int[][][]', o, 'array(2, 4, 8)')
        if r.random() < 0.4:
            o = self.newobj([0] * 8)
            self.addglob(*r.choice([('int[]', o, 'array(8)'), ('char[]', o, 'array(4 + 4)'),
                                    ('boolean[]', o, 'array(8)')]))
        # structure
        self.sname = self.name('S')
        sn = self.sname
        self.fields = [('int', 'x'), ('char', 'c'), ('boolean', 'b'), ('int', 'y'),
                       ('int[]', 'a'), (sn, 'n'), ('char[]', 's')]
        if r.random() < 0.5:
            self.fields.append(('int', 'z'))
        r.shuffle(self.fields)
        self.order.append((sn, len(self.fields)))
        self.out('struct %s {' % sn)
        for t, f in self.fields:
            self.out('  %s %s;' % (t, f))
        self.out('};')
        # size of an instance
        if self.mode == 16:
            self.ssize = 2 * len(self.fields)
        else:
            off = 0
            for t, f in self.fields:
                w = 4 if t == 'int' else 1 if t in ('char', 'boolean') else 8
                off = (off + w - 1) // w * w + w
            self.ssize = (off + 7) // 8 * 8
        self.structs = []

        def sinit():
            vals, txt = [], []
            for t, f in self.fields:
                if t == 'int':
                    v = self.rint()
                    vals.append(v)
                    txt.append(self.cinit(v))
                elif t == 'char':
                    v = self.rchar()
                    vals.append(v)
                    txt.append("'%s'" % self.spellc(v, "'"))
                elif t == 'boolean':
                    v = r.randint(0, 1)
                    vals.append(v)
                    txt.append(('false', 'true')[v])
                elif t == 'char[]' and r.random() < .5:
                    c = [self.rnd.randint(32, 126) for _ in range(7)]
                    vals.append(self.newobj(c + [0]))
                    txt.append(self.spells(c))
                else:
                    vals.append(0)
                    txt.append('null')
            return self.newobj(vals), '{%s}' % ', '.join(txt)
        for _ in range(2):
            self.structs.append(self.addglob(sn, *sinit()))
        self.sarr = None
        if r.random() < 0.5:
            os_ = [sinit() for _ in range(4)]
            self.sarr = self.addglob(sn + '[]', self.newobj([o for o, t in os_]),
                                     '{%s}' % ', '.join(t for o, t in os_))
        self.lib()

    def lib(self):
        """functions returning fresh, filled objects"""
        if self.profile.get('tiny') or self.rnd.random() < 0.5:
            return

        def mk(t, ext, size, fill):
            f = self.begin(self.name('mk'), t, ['int'])
            p = self.scope[0]
            v = self.newvar(t)
            ss = []
            l = self.var(v)
            c = self.call(self.f_newS if ext == 'newS' else getattr(self, 'f_' + ext), [size],
                          **(dict(u=self.ssize, per=len(self.fields)) if ext == 'newS' else {}))
            self.fx(c)
            c.t = t
            self.out('%s %s = %s;' % (t, v['name'], c.s))
            ss.append(self.nd('exp', a=self.assign(l, c).n))
            fill(v, p, ss)
            self.out('return %s;' % v['name'])
            ss.append(self.nd('ret', a=self.var(v).n))
            self.end(f, ss)
            # called like any other function, but not in loops
            f['W'] |= ALLX
            f['heap'] = True

        def loop(v, p, ss, val):
            i = self.newvar('int')
            i0 = self.nd('exp', a=self.assign(self.var(i), self.const(0)).n)
            cd = self.op2('lt', self.var(i), self.const(8), 'boolean')
            inc = self.assign(self.var(i), self.op2('add', self.var(i), self.const(1)))
            st = self.assign(self.idx(self.var(v), self.var(i)), val(i))
            self.fx(st)
            self.out('for (int %s = 0; %s; %s) %s;' % (i['name'], cd.s, inc.s, st.s))
            ss.append(self.nd('for', i=i0, a=cd.n, b=self.nd('exp', a=st.n), r=inc.n))

        def sfill(v, p, ss):
            for t, f in self.fields:
                x = self.var(p) if t == 'int' else self.op1('chr', self.var(p)) if t == 'char' else \
                    self.op1('bool', self.var(p)) if t == 'boolean' else \
                    self.var(self.rnd.choice([g for g in self.gv if g['t'] == t]))
                e = self.fx(self.assign(self.fld(self.var(v), f), x))
                self.out(e.s + ';')
                ss.append(self.exp(e))
        self.heapwords = 500
        mk('int[]', 'newI', self.const(8), lambda v, p, ss: loop(
            v, p, ss, lambda i: self.op2('add', self.var(p), self.var(i))))
        mk('char[]', 'newC', self.const(8), lambda v, p, ss: loop(
            v, p, ss, lambda i: self.op1('chr', self.op2('sub', self.var(p), self.var(i)))))
        n = self.nd('sizeof', v=self.ssize)
        mk(self.sname, 'newS', Ex(n, 'int', 'sizeof(%s)' % self.sname, 15, c=self.ssize), sfill)

    def begin(self, name, t, pts, pub=False):
        f = dict(no=len(self.funcs) + 1, name=name, t=t, pts=pts, R=set(), W=set(),
                 j=dict(ext=0, nl=0, body=0, void=1 if t == 'void' else 0, args=[], rk='v',
                        name=name))
        self.funcs.append(f)
        self.order.append((('_' if pub else '.') + name, len(pts)))
        self.fn = f
        self.nslot = 0
        self.scope = [dict(k='prm', v=i + 1, t=x, name=self.name('p')) for i, x in enumerate(pts)]
        ps = ', '.join('%s %s' % (v['t'], v['name']) for v in self.scope)
        self.out('%s%s %s(%s) {' % ('public ' if pub else '', t, name, ps))
        self.indent = 1
        return f

    def end(self, f, ss):
        self.indent = 0
        self.out('}')
        f['j']['body'] = self.nd('blk', args=ss)
        f['ok'] = True

    # ---- expressions ----
    def vars(self, t, lhs=False):
        if not self.shadow:
            return [v for v in self.scope + self.gv if v['t'] == t and not (lhs and v.get('ro'))]
        d = {v['name']: v for v in self.gv + self.scope}
        return [v for v in self.scope + self.gv if v['t'] == t and not (lhs and v.get('ro'))
                and d[v['name']] is v]

    def pick(self, t, lhs=False):
        vs = self.vars(t, lhs)
        # prefer locals
        loc = [v for v in vs if v['k'] != 'gl']
        if loc and self.rnd.random() < 0.6:
            vs = loc
        return self.var(self.rnd.choice(vs)) if vs else None

    def ensure(self, e, others, dflt):
        """e, or a default without conflict with the others"""
        for o in others:
            if conflict(e, o):
                return dflt()
        return e

    def index(self, d):
        """an index in 0..7"""
        r = self.rnd
        c = r.random()
        if c < 0.3:
            return self.const(r.randint(0, 7))
        if c < 0.45:
            vs = [v for v in self.scope if v.get('ro') and v in self.vars('int')]
            if vs:
                return self.var(r.choice(vs))
        e = self.int_(d)
        return self.op2('and', e, self.const(7))

    def indexn(self, n, d):
        if n == 8:
            return self.index(d)
        if self.rnd.random() < 0.5:
            return self.const(self.rnd.randint(0, n - 1))
        return self.op2('and', self.int_(d), self.const(n - 1))

    def bound(self, t):
        return 4 if t == self.sname + '[]' else BOUND.get(t, 8)

    def ref(self, t, d):
        """a non-null reference of type t"""
        r = self.rnd
        c = r.random()
        if t == 'int[]' and d > 0:
            if c < 0.15:
                return self.relem('int[][]', d)
            if c < 0.3:
                return self.fld(self.ref(self.sname, d - 1), 'a')
        if t == 'char[]' and d > 0:
            if c < 0.15 and self.vars('char[][]'):
                return self.relem('char[][]', d)
            if c < 0.3:
                return self.fld(self.ref(self.sname, d - 1), 's')
        if t == 'int[][]' and d > 0 and c < 0.3 and self.vars('int[][][]'):
            return self.relem('int[][][]', d)
        if t == self.sname and d > 0:
            if c < 0.25:
                return self.fld(self.ref(self.sname, d - 1), 'n')
            if c < 0.4 and self.vars(t + '[]'):
                return self.relem(t + '[]', d)
        if d > 0 and c > 0.93 and not self.pure:
            l = self.pick(t, True)
            if l and self.nodes[l.n - 1]['k'] in ('loc', 'prm'):
                x = self.ref(t, d - 1)
                return self.assign(l, x)
        fs = [f for f in self.callable() if f['t'] == t]
        if fs and d > 0 and r.random() < 0.15:
            return self.gcall(r.choice(fs), d - 1)
        return self.pick(t)

    def relem(self, t, d):
        a = self.ref(t, d - 1) if t == 'int[][]' else self.pick(t)
        if not a:
            a = self.safe(t)
        i = self.indexn(self.bound(t), d - 1)
        i = self.ensure(i, [a], lambda: self.const(1))
        return self.idx(a, i)

    def fld(self, e, fname):
        for k, (t, f) in enumerate(self.fields):
            if f == fname:
                return self.dot(e, self.sname, k, f, t)

    def callable(self):
        return [f for f in self.funcs if f.get('ok') and self.calls_left > 0 and not self.pure
                and not (f.get('heap') and self.loopd)]

    def gcall(self, f, d):
        self.calls_left -= 1
        args = []
        for t in f['pts']:
            e = self.expr(t, d)
            e = self.ensure(e, args, lambda: self.leaf(t))
            e = self.ensure(e, args, lambda: self.safe(t))
            args.append(e)
        if f['j']['args'] and not f['j']['ext']:
            pass
        return self.call(f, args)

    def safe(self, t):
        """an expression no other conflicts with"""
        if t == 'int':
            return self.const(self.rint())
        if t == 'char':
            return self.cconst(self.rnd.randint(0, 255))
        if t == 'boolean':
            return self.bconst(self.rnd.randint(0, 1))
        # a global reference that nobody assigns
        if t == 'void[]':
            t = 'int[]'
        vs = [v for v in self.vars(t) if v['k'] == 'gl' and v.get('ro')]
        return self.var(self.rnd.choice(vs))

    def leaf(self, t):
        if t in ('int', 'char', 'boolean'):
            if self.rnd.random() < 0.7:
                e = self.pick(t)
                if e:
                    return e
            return self.safe(t)
        if t == 'void[]':
            t = 'int[]'
        return self.pick(t) or self.safe(t)

    def expr(self, t, d):
        if t == 'int':
            return self.int_(d)
        if t == 'boolean':
            return self.bool_(d)
        if t == 'char':
            return self.char_(d)
        if t == 'void[]':
            e = self.ref('int[]', d)
            return e
        return self.ref(t, d)

    def toint(self, e):
        """char -> int happens by itself"""
        return e

    def elem(self, t, d, lhs=False):
        """an element of an array / a field of type t (an lvalue)"""
        r = self.rnd
        if r.random() < 0.3:
            fs = [f for (ft, f) in self.fields if ft == t]
            if fs:
                return self.fld(self.ref(self.sname, d), r.choice(fs))
        if t == 'char' and r.random() < 0.15 and not lhs:
            # read only: a string constant
            if r.random() < 0.4:
                a = self.var(self.strg)
                if a.s in [v['name'] for v in self.scope]:
                    a = None
            else:
                a = None
            if a is None:
                cs = [r.randint(32, 126) for _ in range(8)]
                n = self.nd('str', v=self.newobj(cs + [0]) - REF)
                a = Ex(n, 'char[]', self.spells(cs), 15)
        else:
            a = self.ref(t + '[]', d)
        i = self.index(d)
        i = self.ensure(i, [a], lambda: self.const(r.randint(0, 7)))
        return self.idx(a, i)

    def lval(self, t, d):
        r = self.rnd
        if r.random() < 0.65:
            e = self.pick(t, True)
            if e:
                return e
        return self.elem(t, d, True)

    def ass(self, t, d):
        l = self.lval(t, d - 1)
        x = self.expr(t, d - 1)
        # the destination's address must not conflict with the value
        x2 = self.ensure(x, [self.lonly(l)], lambda: self.leaf(t))
        x2 = self.ensure(x2, [self.lonly(l)], lambda: self.safe(t))
        return self.assign(l, x2)

    def lonly(self, l):
        d = self.nodes[l.n - 1]
        if d['k'] in ('loc', 'prm', 'gl'):
            return Ex(l.n, l.t, '', 15)
        return l

    def bin_(self, k, a, mk, dflt, t='int'):
        b = mk()
        for _ in range(2):
            if not conflict(a, b):
                break
            b = mk()
        if conflict(a, b):
            b = dflt()
        return self.op2(k, a, b, t)

    def int_(self, d):
        r = self.rnd
        if d <= 0:
            c = r.random()
            if c < 0.35:
                return self.const(self.rint())
            if c < 0.9:
                return self.pick('int') or self.const(self.rint())
            if c < 0.95:
                return self.pick('char') or self.const(1)
            return self.elem('int', 0)
        c = r.random()
        if c < 0.5:
            k = r.choice(ARITH + ['add', 'sub', 'add', 'sub'])
            return self.arith(k, d)
        if c < 0.58:
            return self.op1(r.choice(['neg', 'bnot', 'neg', 'bnot', 'plus']), self.int_(d - 1))
        if c < 0.66:
            return self.op1('ord', self.bool_(d - 1) if r.random() < 0.7 else self.char_(d - 1))
        if c < 0.76:
            return self.elem('int', d - 1)
        if c < 0.80:
            return self.elem('char', d - 1)
        if c < 0.82 and self.mode == 16:    # (in C, sizeof is not an int)
            return self.size()
        if c < 0.87 and not self.pure:
            return self.ass('int', d)
        if c < 0.89:
            a = self.expr(r.choice(['int', 'boolean']), d - 1)
            return self.comma(a, self.int_(d - 1))
        if c < 0.97:
            fs = [f for f in self.callable() if f['t'] == 'int']
            if fs:
                return self.gcall(r.choice(fs), d - 1)
        return self.int_(0)

    def size(self):
        r = self.rnd
        m = self.mode == 16
        t = r.choice(['int', 'char', 'boolean', self.sname, 'int[]', 'char[]', 'void[]', self.sname + '[]',
                      'int[][]'])
        v = {'int': 2 if m else 4, 'char': 1, 'boolean': 1, self.sname: self.ssize}.get(t, 2 if m else 8)
        return Ex(self.nd('sizeof', v=v), 'int', 'sizeof(%s)' % t, 15, c=v)

    def arith(self, k, d):
        r = self.rnd
        da = d - 1 if r.random() < 0.7 else r.randint(0, d - 1)
        db = d - 1 if r.random() < 0.7 else r.randint(0, d - 1)
        a = self.int_(da)
        cst = lambda: self.const(self.rint())
        if k in ('div', 'mod'):
            if self.mode == 16:
                a = self.op2('and', a, self.const(r.choice([0x7fff, 255, 1023])))
            c = r.random()
            if c < 0.5:
                v = r.choice([1, 2, 3, 4, 5, 7, 8, 10, 16, 64, 100, 255, 256, 1000, 16384, 32767])
                if self.mode == 32 and r.random() < 0.3:
                    v = -v
                return self.op2(k, a, self.const(v))
            mk = lambda: self.op2(*r.choice([('or', self.op2('and', self.int_(db), self.const(255)),
                                              self.const(1)),
                                             ('add', self.op2('and', self.int_(db), self.const(15)),
                                              self.const(1))]))
            return self.bin_(k, a, mk, lambda: self.const(r.choice([3, 8])))
        if k in ('shl', 'shr'):
            if self.mode == 32:
                if k == 'shl':
                    a = self.op2('and', a, self.const(255))
                mk = lambda: self.op2('and', self.int_(db), self.const(7))
            else:
                mk = lambda: self.op2('and', self.int_(db), self.const(15))
            if r.random() < 0.6:
                mk = lambda: self.const(r.randint(0, 7 if self.mode == 32 else 15))
            return self.bin_(k, a, mk, lambda: self.const(r.randint(0, 7)))
        if k == 'mul' and self.mode == 32:
            a = self.op2('and', a, self.const(r.choice([15, 127])))
            return self.bin_(k, a, lambda: self.op2('and', self.int_(db), self.const(127)), cst)
        if self.mode == 32 and k in ('add', 'sub') and r.random() < 0.1:
            a = self.op2('and', a, self.const(0xfff))
        if r.random() < 0.2:
            # constant on the left
            return self.bin_(k, cst(), lambda: self.int_(db), cst)
        return self.bin_(k, a, lambda: self.int_(db), cst)

    def bool_(self, d):
        r = self.rnd
        if d <= 0:
            c = r.random()
            if c < 0.15:
                return self.bconst(r.randint(0, 1))
            e = self.pick('boolean')
            if e and c < 0.6:
                return e
            return self.op2(r.choice(CMP), self.leaf('int'), self.leaf('int'), 'boolean') \
                if c < 0.95 else self.elem('boolean', 0)
        c = r.random()
        if c < 0.38:
            a = self.int_(d - 1)
            z = r.random() < 0.25
            return self.bin_(r.choice(CMP), a,
                             lambda: self.const(0) if z else self.int_(d - 1),
                             lambda: self.const(self.rint()), 'boolean')
        if c < 0.66:
            a = self.bool_(d - 1)
            b = self.bool_(d - 1)
            return self.op2(r.choice(['land', 'lor']), a, b, 'boolean')
        if c < 0.74:
            return self.op1('not', self.bool_(d - 1))
        if c < 0.78:
            a = self.bool_(d - 1)
            return self.bin_(r.choice(['eq', 'ne']), a, lambda: self.bool_(d - 1),
                             lambda: self.bconst(r.randint(0, 1)), 'boolean')
        if c < 0.82:
            t = r.choice(['int[]', self.sname, 'char[]', 'int[][]'])
            a = self.ref(t, d - 1)
            if r.random() < 0.4:
                b = Ex(self.nd('const', v=0), 'void[]', 'null', 15)
                return self.op2(r.choice(['eq', 'ne']), a, b, 'boolean')
            return self.bin_(r.choice(['eq', 'ne']), a, lambda: self.ref(t, d - 1),
                             lambda: Ex(self.nd('const', v=0), 'void[]', 'null', 15), 'boolean')
        if c < 0.86:
            return self.op1('bool', self.int_(d - 1))
        if c < 0.90:
            return self.elem('boolean', d - 1)
        if c < 0.94 and not self.pure:
            return self.ass('boolean', d)
        fs = [f for f in self.callable() if f['t'] == 'boolean']
        if fs:
            return self.gcall(r.choice(fs), d - 1)
        return self.bool_(0)

    def char_(self, d):
        r = self.rnd
        c = r.random()
        if d <= 0 or c < 0.3:
            if c < 0.15:
                return self.cconst(r.randint(0, 255))
            return self.pick('char') or self.cconst(65)
        if c < 0.6:
            return self.op1('chr', self.int_(d - 1))
        if c < 0.8:
            return self.elem('char', d - 1)
        if c < 0.9 and not self.pure:
            return self.ass('char', d)
        fs = [f for f in self.callable() if f['t'] == 'char']
        if fs:
            return self.gcall(r.choice(fs), d - 1)
        return self.char_(0)

    # ---- statements ----
    def newvar(self, t, ro=False):
        self.nslot += 1
        self.fn['j']['nl'] = max(self.fn['j']['nl'], self.nslot)
        return dict(k='loc', v=self.nslot, t=t, name=self.name('v'), ro=ro)

    def fx(self, e):
        """record the effects of e on the current function"""
        for s, k in ((e.R, 'R'), (e.W, 'W')):
            self.fn[k] |= {x for x in s if x[0] in ('g', 'm', 'x')}
        return e

    def exp(self, e):
        self.fx(e)
        return self.nd('exp', a=e.n)

    def decl(self, t=None):
        r = self.rnd
        t = t or r.choice(['int', 'int', 'int', 'char', 'boolean', 'int[]', 'char[]', self.sname])
        e = self.expr(t, self.depth0)
        vp = [v for v in self.scope if v['t'] == 'void[]']
        if t == 'int[]' and vp and r.random() < 0.6:
            e = self.var(r.choice(vp))
        self.fx(e)
        v = self.newvar(t)
        if r.random() < 0.15:
            # the name of a global variable, or of a variable of a finished block
            used = {x['name'] for x in self.scope} | self.inuse
            old = [n for n in [x['name'] for x in self.gv if x['t'] in ('int', 'char')] + self.dead
                   if n not in used and not re.search(r'\b%s\b' % n, e.s)]
            if old:
                v['name'] = r.choice(old)
                self.shadow = True
        self.inuse.add(v['name'])
        l = self.var(v)
        n = self.nd('exp', a=self.assign(l, e).n)
        c = r.random()
        if c < 0.75:
            self.out('%s %s = %s;' % (t, v['name'], self.par(e, 3)))
        elif c < 0.9:
            w = self.newvar(t)      # declared together; assigned later
            first = r.random() < 0.5
            a = '%s = %s' % (v['name'], self.par(e, 3))
            self.out('%s %s, %s;' % ((t, w['name'], a) if first else (t, a, w['name'])))
            if t in ('int', 'char', 'boolean'):
                e2 = self.assign(self.var(w), self.safe(t))
                self.out(e2.s + ';')
                n = self.nd('blk', args=[n, self.exp(e2)])
                self.scope.append(w)
        else:
            self.out('%s %s;' % (t, v['name']))
            self.out('%s = %s;' % (v['name'], self.par(e, 3)))
        self.scope.append(v)
        return n

    def block(self, n, inloop):
        """n statements in a new scope; returns the node"""
        sc, b = len(self.scope), self.blk
        self.blk = sc
        ss = []
        for _ in range(n):
            if self.stmts <= 0:
                break
            ss.append(self.stat(inloop))
        self.dead += [v['name'] for v in self.scope[sc:]]
        self.inuse -= {v['name'] for v in self.scope[sc:]}
        del self.scope[sc:]
        self.blk = b
        return ss

    def body(self, inloop, head, closed=False):
        """head and a statement; closed: no else may attach to its end"""
        r = self.rnd
        c = r.random()
        if c < 0.3 and self.stmts > 0:
            if c < 0.15:
                self.out(head)
                self.indent += 1
                n = self.stat1(inloop, closed)
                self.indent -= 1
            else:
                i = len(self.lines)
                self.indent += 1
                n = self.stat1(inloop, closed)
                self.indent -= 1
                # (put the head in front; the statement may have several lines)
                self.lines[i] = '  ' * self.indent + head + ' ' + self.lines[i].lstrip()
            self.last = n
            return n
        if c < 0.33:
            self.out(head + r.choice([';', ' ;', ' {}', ' { }', ' { ; }', ' {{}}']))
            self.last = 0
            return self.nd('nop')
        self.out(head + ' {')
        self.indent += 1
        ss = self.block(self.rnd.randint(1, 3), inloop)
        self.indent -= 1
        self.out('}')
        self.last = 0
        return self.nd('blk', args=ss)

    def open_(self, n):
        """does statement n (printed without braces) end in an if without else?"""
        if not n:
            return False
        d = self.nodes[n - 1]
        if d['k'] == 'if':
            return d['open']
        return d.get('open', False)

    def cond(self):
        r = self.rnd
        if r.random() < 0.05:
            e = r.choice([lambda: self.bconst(r.randint(0, 1)),
                          lambda: self.op2(r.choice(CMP), self.const(self.rint()), self.const(self.rint()), 'boolean'),
                          lambda: self.op1('not', self.bconst(r.randint(0, 1)))])()
        else:
            e = self.bool_(self.depth0)
            if r.random() < 0.04 and not self.pure:
                e = self.comma(self.ass('int', 2), e)
        self.fx(e)
        return e

    def ifstat(self, inloop, closed=False, deep=0):
        r = self.rnd
        e = self.cond()
        els = closed or r.random() < 0.5
        n1 = self.body(inloop, 'if (%s)' % e.s, els)
        if els and self.open_(self.last):
            els = False         # cannot happen when closed
        n2, op = 0, True
        if els:
            if r.random() < 0.3 and deep < 3 and self.stmts > 0:
                # else if chain
                i = len(self.lines)
                n2 = self.ifstat(inloop, closed, deep + 1)
                self.lines[i] = '  ' * self.indent + 'else ' + self.lines[i].lstrip()
                self.last = n2
            else:
                n2 = self.body(inloop, 'else', closed)
            op = self.open_(self.last)
        return self.nd('if', a=e.n, b=n1, c=n2, open=op)

    def stat1(self, inloop, closed):
        """one statement other than a declaration"""
        r = self.rnd
        self.stmts -= 1
        self.calls_left = 1
        c = r.random()
        if c < 0.15 and self.indent < 6:
            return self.ifstat(inloop, closed)
        if c < 0.25 and self.loopd < 2:
            n = self.loop('for', closed)
            return n
        if c < 0.35 and inloop:
            k = r.choice(['brk', 'cnt'])
            self.out('break;' if k == 'brk' else 'continue;')
            return self.nd(k)
        if c < 0.40 and self.fn['name'] != 'main' and not self.vret:
            return self.ret_()
        if c < 0.70:
            return self.put()
        e = self.ass(r.choice(['int', 'int', 'char', 'boolean']), self.depth0)
        self.out(e.s + ';')
        return self.exp(e)

    def ret_(self):
        if self.fn['t'] == 'void':
            self.out('return;')
            return self.nd('ret', a=0)
        x = self.fx(self.expr(self.fn['t'], 2))
        self.out('return %s;' % x.s)
        return self.nd('ret', a=x.n)

    def stat(self, inloop):
        r = self.rnd
        self.stmts -= 1
        self.calls_left = 2 if self.loopd == 0 else 1
        c = r.random()
        if c < 0.12 and len(self.scope) < self.maxlocals:
            return self.decl()
        if c < 0.40:
            t = r.choice(['int', 'int', 'int', 'char', 'boolean', 'int'])
            e = self.ass(t, self.depth0)
            if r.random() < 0.06:
                e2 = self.ass(r.choice(['int', 'char']), 2)
                e = self.comma(e, e2)
            self.out(e.s + ';')
            return self.exp(e)
        if c < 0.58:
            return self.put()
        if c < 0.64:
            t = r.choice(['int[]', self.sname, 'char[]'])
            l = self.pick(t, True)
            if r.random() < 0.4:
                if t == 'int[]':
                    l = self.relem('int[][]', 2) if r.random() < .5 else self.fld(self.ref(self.sname, 1), 'a')
                elif t == 'char[]':
                    l = self.fld(self.ref(self.sname, 1), 's')
                else:
                    l = self.fld(self.ref(self.sname, 1), 'n')
            if l:
                x = self.ref(t, 2)
                x = self.ensure(x, [self.lonly(l)], lambda: self.safe(t))
                e = self.assign(l, x)
                self.out(e.s + ';')
                return self.exp(e)
        if c < 0.76 and self.indent < 5:
            return self.ifstat(inloop)
        if c < 0.86 and self.loopd < 2 and self.indent < 5:
            return self.loop()
        if c < 0.88:
            self.out(r.choice([';', '{}', '{ ; }', 'if (false) ;', 'while (false) ;', 'do ; while (false);',
                               'for (; false; ) ;']))
            return self.nd('nop')
        if c < 0.90 and inloop:
            e = self.cond()
            k = r.choice(['brk', 'cnt'])
            self.out('if (%s) %s;' % (e.s, 'break' if k == 'brk' else 'continue'))
            return self.nd('if', a=e.n, b=self.nd(k), c=0)
        if c < 0.91 and self.indent < 5:
            self.out('{')
            self.indent += 1
            ss = self.block(r.randint(1, 3), inloop)
            self.indent -= 1
            self.out('}')
            return self.nd('blk', args=ss)
        if c < 0.93 and self.fn['name'] != 'main':
            e = self.cond()
            if self.fn['t'] == 'void':
                self.out('if (%s) return;' % e.s)
                return self.nd('if', a=e.n, b=self.nd('ret', a=0), c=0)
            x = self.fx(self.expr(self.fn['t'], 2))
            self.out('if (%s) return %s;' % (e.s, x.s))
            return self.nd('if', a=e.n, b=self.nd('ret', a=x.n), c=0)
        if c < 0.95:
            e = self.expr(r.choice(['int', 'boolean', 'char', self.sname]), self.depth0)
            self.out(e.s + ';')
            return self.exp(e)
        fs = [f for f in self.callable() if f['t'] == 'void']
        if fs:
            e = self.gcall(r.choice(fs), self.depth0 - 1)
            self.out(e.s + ';')
            return self.exp(e)
        return self.put()

    def put(self):
        r = self.rnd
        c = r.random()
        if c < 0.80:
            e = self.call(self.f_put, [self.int_(self.depth0)])
        elif c < 0.88:
            a = []
            for t in ('int', 'char', 'boolean'):
                x = self.expr(t, self.depth0 - 1)
                x = self.ensure(x, a, lambda: self.safe(t))
                a.append(x)
            e = self.call(self.f_put3, a)
        elif c < 0.92:
            n = r.randint(0, 4)
            a = [self.const(n)]
            for _ in range(n):
                t = r.choice(['int', 'char', 'boolean', 'int'])
                x = self.expr(t, self.depth0 - 1)
                x = self.ensure(x, a, lambda: self.safe(t))
                a.append(x)
            e = self.call(self.f_putv, a)
        elif c < 0.94:
            cs = [r.randint(1, 255) for _ in range(r.randint(0, 6))]
            n = self.nd('str', v=self.newobj(cs + [0]) - REF)
            e = self.call(self.f_putS, [Ex(n, 'char[]', self.spells(cs), 15)])
        elif c < 0.95 and self.strg['name'] not in [v['name'] for v in self.scope]:
            e = self.call(self.f_putS, [self.var(self.strg)])
        elif c < 0.96:
            e = self.call(self.f_put, [self.size()])
        else:
            l = self.pick('int', True) or self.elem('int', 0, True)
            e = self.assign(l, self.call(self.f_get, []))
        self.out(e.s + ';')
        return self.exp(e)

    def loop(self, kind='', closed=False):
        r = self.rnd
        self.loopd += 1
        cnt = r.randint(1, 3)
        c = r.random()
        if kind == 'for':
            c *= 0.45
        sc = len(self.scope)
        if c < 0.45:
            v = self.newvar('int', True)
            l = self.var(v)
            ini = self.assign(l, self.const(0))
            ini.s = 'int %s = 0' % v['name']
            if r.random() < 0.2:
                w = self.newvar('int')
                x = self.fx(self.leaf('int'))
                e2 = self.assign(self.var(w), x)
                ini.s += ', %s = %s' % (w['name'], self.par(x, 3))
                init = self.nd('blk', args=[self.nd('exp', a=ini.n), self.nd('exp', a=e2.n)])
                self.scope.append(w)
            else:
                init = self.nd('exp', a=ini.n)
            self.scope.append(v)
            cnd = self.op2('lt', self.var(v), self.const(cnt), 'boolean')
            if r.random() < 0.3:
                self.calls_left = 1
                x = self.fx(self.bool_(1))
                cnd = self.op2('land', cnd, x, 'boolean')
            inc = self.assign(self.var(v), self.op2('add', self.var(v), self.const(1)))
            if r.random() < 0.2:
                self.calls_left = 0
                x = self.fx(self.ass('int', 1))
                inc = self.comma(inc, x)
            b = self.body(True, 'for (%s; %s; %s)' % (ini.s, cnd.s, inc.s), closed)
            n = self.nd('for', i=init, a=cnd.n, b=b, r=inc.n, open=self.open_(self.last))
        else:
            v = self.newvar('int', True)
            self.out('int %s = %d;' % (v['name'], cnt))
            l = self.var(v)
            init = self.nd('exp', a=self.assign(l, self.const(cnt)).n)
            # the counter is visible until the end of the enclosing block, but
            # only this loop may change it
            dec = self.assign(self.var(v), self.op2('sub', self.var(v), self.const(1)))
            k = r.choice(['ge', 'gt', 'ne'])
            cnd = self.op2(k, dec, self.const(0), 'boolean')
            if r.random() < 0.3:
                self.calls_left = 1
                x = self.fx(self.bool_(1))
                cnd = self.op2('land', cnd, x, 'boolean')
            if c < 0.7:
                b = self.body(True, 'while (%s)' % cnd.s)
                w = self.nd('while', a=cnd.n, b=b)
            elif c < 0.9:
                cn = [d for d in self.nodes[self.stamped:]]
                b = self.body(True, 'do')
                self.lines[-1] += ' while (%s);' % cnd.s
                for d in cn:
                    d['ln'] = len(self.lines)
                w = self.nd('do', a=cnd.n, b=b)
            elif c < 0.95:
                self.out('while (true) {')
                self.indent += 1
                self.out('if (!(%s)) break;' % cnd.s)
                g = self.nd('if', a=self.op1('not', cnd).n, b=self.nd('brk'), c=0)
                ss = self.block(r.randint(1, 2), True)
                self.indent -= 1
                self.out('}')
                w = self.nd('while', a=self.bconst(1).n, b=self.nd('blk', args=[g] + ss))
            else:
                self.out('for (;;) {')
                self.indent += 1
                self.out('if (!(%s)) break;' % cnd.s)
                g = self.nd('if', a=self.op1('not', cnd).n, b=self.nd('brk'), c=0)
                ss = self.block(r.randint(1, 2), True)
                self.indent -= 1
                self.out('}')
                w = self.nd('for', i=0, a=0, b=self.nd('blk', args=[g] + ss), r=0)
            n = self.nd('blk', args=[init, w])
        del self.scope[sc:]
        self.loopd -= 1
        return n

    # ---- functions ----
    def func(self, name, t, pts, pub, nst, nloc, extra=None):
        f = dict(no=len(self.funcs) + 1, name=name, t=t, pts=pts, R=set(), W=set(),
                 j=dict(ext=0, nl=0, body=0, void=1 if t == 'void' else 0, args=[], rk='v',
                        name=name))
        self.funcs.append(f)
        self.order.append((('_' if pub else '.') + name, len(pts)))
        self.fn = f
        self.nslot = 0
        self.stmts = nst
        self.maxlocals = nloc + len(pts) + 3
        self.calls_left = 1
        self.loopd = 0
        self.scope = [dict(k='prm', v=i + 1, t=x, name=self.name('p')) for i, x in enumerate(pts)]
        self.blk = 0
        self.vret = False
        self.dead, self.inuse = [], set()
        ps = ', '.join('%s %s' % (v['t'], v['name']) for v in self.scope)
        self.out('%s%s %s(%s) {' % ('public ' if pub else '', t, name, ps))
        self.indent = 1
        ss = []
        if extra:
            ss += extra()
        for i in range(nloc):
            ss.append(self.decl('int' if i >= 9 and self.rnd.random() < .6 else None))
        while self.stmts > 0:
            ss.append(self.stat(False))
        if name == 'main':
            ss += self.dump()
        if t == 'void':
            pass
        else:
            self.calls_left = 1
            e = self.fx(self.expr(t, self.depth0)) if name != 'main' else self.const(0)
            self.out('return %s;' % e.s)
            ss.append(self.nd('ret', a=e.n))
        self.indent = 0
        self.out('}')
        f['j']['body'] = self.nd('blk', args=ss)
        f['ok'] = name != 'main'
        return f

    def rec(self):
        """a bounded recursive function"""
        name = self.name('rec')
        f = dict(no=len(self.funcs) + 1, name=name, t='int', pts=['int', 'int'],
                 R=set(ALLX), W=set(ALLX),
                 j=dict(ext=0, nl=0, body=0, void=0, args=[], rk='v', name=name))
        self.funcs.append(f)
        self.order.append(('.' + name, 2))
        self.fn = f
        self.nslot = 0
        self.calls_left = 0
        n_ = dict(k='prm', v=1, t='int', name=self.name('p'), ro=True)
        a_ = dict(k='prm', v=2, t='int', name=self.name('p'))
        self.scope = [n_, a_]
        self.out('int %s(int %s, int %s) {' % (name, n_['name'], a_['name']))
        self.indent = 1
        ss = [self.decl('int')]
        c = self.op2('le', self.var(n_), self.const(0), 'boolean')
        e = self.fx(self.int_(2))
        self.out('if (%s) return %s;' % (c.s, e.s))
        ss.append(self.nd('if', a=c.n, b=self.nd('ret', a=e.n), c=0))
        ss.append(self.put())
        # effects so far must not conflict with the recursive call's other operand
        x = self.call(f, [self.op2('sub', self.var(n_), self.const(1)), self.leaf('int')])
        y = self.leaf('int')
        yk = self.nodes[y.n - 1]['k']
        if yk == 'gl':
            y = self.const(3)
        e = self.op2(self.rnd.choice(['add', 'sub', 'xor', 'and', 'or']), *((x, y) if self.rnd.random() < .5 else (y, x)))
        self.fx(e)
        self.out('return %s;' % e.s)
        ss.append(self.nd('ret', a=e.n))
        self.indent = 0
        self.out('}')
        f['j']['body'] = self.nd('blk', args=ss)
        w = dict(no=len(self.funcs) + 1)
        f['ok'] = False
        f['rec'] = True
        self.recf = f

    def dump(self):
        """show the whole state"""
        ss = []

        def p(e):
            e = self.call(self.f_put, [e])
            self.out(e.s + ';')
            ss.append(self.exp(e))
        vs = self.scope + self.gv
        if self.profile.get('tiny'):
            vs = self.scope + self.rnd.sample(self.gv, 3)
        hid = {v['name'] for v in self.scope}
        for v in vs:
            if v['k'] == 'gl' and v['name'] in hid:
                continue
            if v['t'] in ('int', 'char'):
                p(self.var(v))
            elif v['t'] == 'boolean':
                p(self.op1('ord', self.var(v)))
            elif v['t'] in ('int[]', 'char[]') and v['k'] == 'gl':
                for i in self.rnd.sample(range(8), 3):
                    p(self.idx(self.var(v), self.const(i)))
        return ss

    def build(self):
        r = self.rnd
        self.gv = []
        self.addext()
        self.globals_()
        for v in self.gv:
            if v['t'] not in ('int', 'char', 'boolean'):
                v['ro'] = True
        self.calls_left = 0
        tiny = self.profile.get('tiny')
        nf = r.choice([0, 0, 0, 1]) if tiny else r.randint(1, 3)
        if not tiny and r.random() < 0.3:
            self.rec()
        for i in range(nf):
            t = r.choice(['int', 'int', 'int', 'boolean', 'char', 'void', 'int[]', self.sname, 'char[]'])
            pts = [r.choice(['int', 'int', 'int', 'char', 'boolean', 'int[]', self.sname, 'char[]', 'void[]'])
                   for _ in range(r.choice([0, 1, 1, 2, 2, 3, 4, 6]))]
            self.func(self.name('f'), t, pts, r.random() < 0.4,
                      1 if tiny else r.randint(1, 5),
                      0 if tiny else r.choice([0, 1, 2, 4, 8, 9, 10, 12]))

        def close(mk, ss):
            for f, src in (('a', [x for x in self.gv if x['t'] == 'int[]']),
                           ('n', self.structs),
                           ('s', [x for x in self.gv if x['t'] == 'char[]'])):
                e = self.assign(self.fld(mk(), f), self.var(r.choice(src)))
                self.out(e.s + ';')
                ss.append(self.exp(e))

        def pro():
            # close the reference fields
            ss = []
            for v in self.structs:
                close(lambda v=v: self.var(v), ss)
            if self.sarr:
                for i in range(4):
                    close(lambda i=i: self.idx(self.var(self.sarr), self.const(i)), ss)
            if getattr(self, 'recf', None):
                e = self.call(self.f_put, [self.call(self.recf, [self.const(r.randint(0, 4)),
                                                                 self.const(self.rint())])])
                self.out(e.s + ';')
                ss.append(self.exp(e))
            return ss
        m = self.func('main', 'int', [], True, r.randint(1, 2) if tiny else r.randint(4, 12),
                      r.choice([0, 1, 2]) if tiny else r.choice([0, 2, 5, 9, 11]), pro)
        self.main = m['no']


if __name__ == '__main__':
    import sys
    g = Gen(int(sys.argv[1]), random.Random(int(sys.argv[1])))
    print(g.source())
