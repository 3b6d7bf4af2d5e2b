"""Systematic families of test programs (on top of the random generator)."""
import gen
from gen import Ex, REF, ARITH, CMP

FX = frozenset([('f',)])        # an access that may fault: keeps the optimizer's licence to drop out


class Fault(gen.Gen):
    """Many functions, each with one access that may be illegal; the first input selects which
    one main calls (mode 32, for the checking translator)."""

    def __init__(self, pid, rnd, mode=32, cases=14):
        self.ncases = cases
        super().__init__(pid, rnd, mode, {'tiny': 1})

    def build(self):
        r = self.rnd
        self.gv = []
        self.addext()
        self.globals_()
        for v in self.gv:
            if v['t'] not in ('int', 'char', 'boolean'):
                v['ro'] = True
        self.heapwords = 500
        sn = self.sname
        self.pure = True
        self.calls_left = 0
        # null references of every type, and objects with null references inside
        self.nul = {}
        for t in ('int[]', 'char[]', 'boolean[]', sn, sn + '[]', 'int[][]', 'char[][]'):
            self.nul[t] = self.addglob(t, 0, r.choice(['null', None]))
            self.gv.remove(self.nul[t])
        self.ns = self.addglob(sn, self.newobj([0] * len(self.fields)), '{%s}' % ', '.join(
            {'int': '0', 'char': "'\\0'", 'boolean': 'false'}.get(t, 'null') for t, f in self.fields))
        self.gv.remove(self.ns)
        self.na2 = self.addglob('int[][]', self.newobj([0] * 3), '{null, null, null}')
        self.na3 = self.addglob(sn + '[]', self.newobj([0] * 3), '{null, null, null}')
        self.gv.remove(self.na2)
        self.gv.remove(self.na3)
        n = r.choice([1, 2, 3, 5])
        self.odd1 = self.addglob('int[]', self.newobj([0] * n), 'array(%d)' % n)
        self.odd1['len'] = n
        self.odd2 = self.addglob('char[]', self.newobj([7, 8, 9]), "{'\\x07', '\\x08', '\\x09'}")
        self.odd2['len'] = 3
        self.odd3 = self.addglob('boolean[]', self.newobj([1]), '{true}')
        self.odd3['len'] = 1
        for v in (self.odd1, self.odd2, self.odd3):
            self.gv.remove(v)
        # functions returning references
        self.rets = {}
        for t in ('int[]', 'char[]', sn, 'boolean[]', 'int[][]'):
            f = self.begin(self.name('id'), t, [t])
            self.out('return %s;' % self.scope[0]['name'])
            self.end(f, [self.nd('ret', a=self.var(self.scope[0]).n)])
            self.rets[t] = f
        fs = [self.case() for _ in range(self.ncases)]
        # main
        f = self.begin('main', 'int', [], True)
        ss = []
        # close the reference fields of the proper structures
        for v in self.structs:
            self.close(v, ss)
        if self.sarr:
            for i in range(4):
                self.close(v, ss, self.idx(self.var(self.sarr), self.const(i)))
        s = self.newvar('int')
        self.out('int %s = get();' % s['name'])
        ss.append(self.exp(self.assign(self.var(s), self.call(self.f_get, []))))
        for k, (g, args) in enumerate(fs):
            c = self.op2('eq', self.var(s), self.const(k + 1), 'boolean')
            x = self.call(g, args)
            t = g['t']
            if t == 'int':
                x = self.call(self.f_put, [x])
            elif t == 'boolean':
                x = self.call(self.f_put, [self.op1('ord', x)])
            self.out('if (%s) %s;' % (c.s, x.s))
            ss.append(self.nd('if', a=c.n, b=self.exp(x), c=0))
        e = self.call(self.f_put, [self.const(99)])
        self.out(e.s + ';')
        ss.append(self.exp(e))
        self.out('return 0;')
        ss.append(self.nd('ret', a=self.const(0).n))
        self.end(f, ss)
        self.main = f['no']
        self.runs = [[k + 1] for k in range(self.ncases)]

    def close(self, v, ss, o=None):
        r = self.rnd
        for f, src in (('a', [x for x in self.gv if x['t'] == 'int[]']), ('n', self.structs),
                       ('s', [x for x in self.gv if x['t'] == 'char[]'])):
            e = self.assign(self.fld(o if o else self.var(v), f), self.var(r.choice(src)))
            self.out(e.s + ';')
            ss.append(self.exp(e))

    # ---- the access ----
    def array(self, t):
        """(reference, length) of an array of type t; length None: null"""
        r = self.rnd
        sn = self.sname
        c = r.random()
        if c < 0.22 and t in self.nul:
            return self.hide(self.var(self.nul[t]), t), None
        if c < 0.30 and t == 'int[]':
            return self.fld(self.hide(self.var(self.ns), sn), 'a'), None
        if c < 0.30 and t == 'char[]':
            return self.fld(self.hide(self.var(self.ns), sn), 's'), None
        if c < 0.38 and t == 'int[]':
            return self.idx(self.var(self.na2), self.const(r.randint(0, 2))), None
        if c < 0.55:
            for v in (self.odd1, self.odd2, self.odd3):
                if v['t'] == t:
                    return self.hide(self.var(v), t), v['len']
        if c < 0.68 and t in ('int[]', 'char[]'):
            # a fresh object in a local variable, made in the preparation
            n = r.choice([0, 1, 2, 8])
            v = self.newvar(t)
            x = self.call(self.f_newI if t == 'int[]' else self.f_newC, [self.const(n)])
            self.pre('%s %s = %s;' % (t, v['name'], x.s), self.assign(self.var(v), x))
            if n:
                for i in range(n):
                    e = self.assign(self.idx(self.var(v), self.const(i)), self.safe(t[:-2]))
                    self.pre(e.s + ';', e)
            return self.var(v), n
        if c < 0.76 and t == 'char[]':
            cs = [r.randint(32, 126) for _ in range(r.randint(0, 5))]
            n = self.nd('str', v=self.newobj(cs + [0]) - REF)
            return Ex(n, 'char[]', self.spells(cs), 15), len(cs) + 1
        if c < 0.84 and t == 'int[]':
            i = self.indexn(4, 0)
            return self.idx(self.pick('int[][]'), i), 8
        if c < 0.88 and t in ('int[]', 'char[]'):
            return self.fld(self.var(r.choice(self.structs)), 'a' if t == 'int[]' else 's'), 8
        return self.hide(self.pick(t), t), self.bound(t)

    def hide(self, e, t):
        """the same reference in a variable, a parameter or through a function"""
        r = self.rnd
        c = r.random()
        if c < 0.35:
            return e
        if c < 0.55:
            v = self.newvar(t)
            self.pre('%s %s = %s;' % (t, v['name'], e.s), self.assign(self.var(v), e))
            return self.var(v)
        if c < 0.85:
            pt = t if r.random() < .7 or not t.endswith('[]') else 'void[]'
            v = dict(k='prm', v=len(self.params) + 1, t=t, name=self.name('p'))
            self.params.append((pt, v, e))
            if pt == 'void[]':
                w = self.newvar(t)
                self.pre('%s %s = %s;' % (t, w['name'], v['name']), self.assign(self.var(w), self.var(v)))
                return self.var(w)
            return self.var(v)
        if t in self.rets:
            return self.call(self.rets[t], [e])
        return e

    def pre(self, text, e):
        self.out(text)
        self.body.append(self.exp(e))

    def badidx(self, n):
        """an index for an array of n elements, as an expression"""
        r = self.rnd
        n = 3 if n is None else n
        v = r.choice([-1, n, n, n + 1, max(n - 1, 0), n - 1, 0, 255, 256, 65536 + n, -n, -65536,
                      (1 << 30) - 1, -(1 << 30), 0x1000000])
        if v == -(1 << 30) or v == (1 << 30) - 1:
            return self.const(v)
        c = r.random()
        if c < 0.4:
            return self.const(v)
        if c < 0.7:
            w = self.newvar('int')
            self.pre('int %s = %d;' % (w['name'], v), self.assign(self.var(w), self.const(v)))
            return self.var(w)
        if c < 0.8 and 0 <= v <= 255:
            w = self.newvar('char')
            self.pre('char %s = chr(%d);' % (w['name'], v),
                     self.assign(self.var(w), self.op1('chr', self.const(v))))
            return self.op1('ord', self.var(w))
        w = self.newvar('int')
        k = r.randint(-100, 100)
        self.pre('int %s = %d;' % (w['name'], k), self.assign(self.var(w), self.const(k)))
        return self.op2('add', self.var(w), self.const(v - k))

    def access(self, t):
        """an access (lvalue) of type t that may be illegal"""
        r = self.rnd
        sn = self.sname
        fs = [f for ft, f in self.fields if ft == t]
        c = r.random()
        if fs and c < 0.3:
            c = r.random()
            if c < 0.3:
                s = self.hide(self.var(self.nul[sn]), sn)
            elif c < 0.5:
                s = self.fld(self.hide(self.var(self.ns), sn), 'n')
            elif c < 0.7:
                a = self.hide(self.var(self.na3), sn + '[]')
                i = self.badidx(3)
                s = self.idx(a, i)
            else:
                s = self.hide(self.var(r.choice(self.structs)), sn)
            e = self.fld(s, r.choice(fs))
        elif t == 'int[]' and c < .5 or t == sn and c < .8:
            a, n = (self.hide(self.var(self.na2), 'int[][]'), 3) if t == 'int[]' else \
                (self.hide(self.var(self.na3), sn + '[]'), 3)
            e = self.idx(a, self.badidx(n))
        elif t == 'int' and c < 0.4:
            # the outer index of two
            a = self.pick('int[][]')
            e = self.idx(self.idx(a, self.badidx(4)), self.index(0))
        elif t == sn or t == 'char[]':
            return self.access('int')
        else:
            at = t + '[]'
            a, n = self.array(at)
            e = self.idx(a, self.badidx(n))
        e.W = FX
        return e

    def refval(self, t):
        return self.pick(t)

    # ---- what is around it ----
    def around(self, x, d):
        """an expression of type int or boolean containing x"""
        r = self.rnd
        t = x.t
        if t not in ('int', 'char', 'boolean'):
            n = Ex(self.nd('const', v=0), 'void[]', 'null', 15)
            x = self.op2(r.choice(['eq', 'ne']), *r.choice([(x, n), (n, x)]), 'boolean')
            t = 'boolean'
        if d <= 0:
            return x if t != 'char' else self.op1('ord', x)
        c = r.random()
        if t == 'boolean':
            if c < 0.25:
                x = self.op1('not', x)
            elif c < 0.5:
                x = self.op1('ord', x)
            elif c < 0.7:
                y = self.bool_(1)
                x = self.op2(r.choice(['land', 'lor']), *r.choice([(x, y), (y, x)]), 'boolean')
            elif c < 0.85:
                x = self.op2(r.choice(['eq', 'ne']), *r.choice([(x, self.bool_(0)), (self.bool_(0), x)]), 'boolean')
            else:
                x = self.comma(self.bool_(1), x)
        else:
            if c < 0.3:
                k = r.choice(['add', 'sub', 'and', 'or', 'xor'])
                y = self.int_(1)
                x = self.op2(k, *r.choice([(x, y), (y, x)]))
            elif c < 0.4:
                x = self.op2('shr', x, self.const(r.randint(0, 7))) if r.random() < .5 else \
                    self.op2('and', self.op2('mul', self.op2('and', x, self.const(15)), self.const(3)), self.const(63))
            elif c < 0.5:
                x = self.op1(r.choice(['neg', 'bnot', 'plus']), x)
            elif c < 0.6:
                y = self.int_(0)
                x = self.op2(r.choice(CMP), *r.choice([(x, y), (y, x)]), 'boolean')
            elif c < 0.7:
                x = self.op1('ord', self.op1(r.choice(['chr', 'bool']), x))
            elif c < 0.8:
                x = self.idx(self.pick('int[]'), self.op2('and', x, self.const(7)))
                x.W = FX
            elif c < 0.9:
                x = self.comma(self.int_(0), x) if r.random() < .5 else self.comma(x, self.int_(0))
            else:
                x = self.op2('div' if r.random() < .5 else 'mod', x, self.const(r.choice([3, 7, -2])))
        return self.around(x, d - 1)

    def toint_(self, e):
        return self.op1('ord', e) if e.t == 'boolean' else e

    def tobool(self, e):
        return e if e.t == 'boolean' else self.op2(self.rnd.choice(['ne', 'gt', 'le']), e, self.const(0), 'boolean')

    def case(self):
        r = self.rnd
        t = r.choice(['int', 'int', 'char', 'boolean', 'int[]', self.sname])
        kind = r.choice(['put', 'if', 'while', 'for0', 'for1', 'for2', 'ret', 'decl', 'ass', 'lhs',
                         'lhs', 'disc', 'comma', 'land', 'lor', 'do', 'arg', 'index', 'lhsidx'])
        rt = {'ret': r.choice(['int', 'boolean'])}.get(kind, 'void')
        f = dict(no=len(self.funcs) + 1, name=self.name('t'), t=rt, pts=[], R=set(), W=set(),
                 j=dict(ext=0, nl=0, body=0, void=int(rt == 'void'), args=[], rk='v', name=''))
        self.funcs.append(f)
        self.fn = f
        self.nslot = 0
        self.scope = []
        self.params = []
        self.body = ss = []
        hl = len(self.lines)
        self.out('')                # the head, known at the end
        self.indent = 1
        e = self.call(self.f_put, [self.const(7)])
        self.out(e.s + ';')
        ss.append(self.exp(e))
        d = r.choice([0, 0, 1, 2])
        if kind == 'do':
            v = self.newvar('int')
            self.pre('int %s = 0;' % v['name'], self.assign(self.var(v), self.const(0)))
        x = self.access(t)
        put = lambda e: self.call(self.f_put, [self.toint_(e)])

        def puts(v):
            e = self.call(self.f_put, [self.const(v)])
            return e.s + ';', self.exp(e)
        if kind == 'lhs' or kind == 'lhsidx':
            if kind == 'lhs':
                v = {'int': lambda: self.int_(1), 'char': lambda: self.char_(1), 'boolean': lambda: self.bool_(1),
                     }.get(x.t, lambda: self.refval(x.t))()
                e = self.assign(x, v)
            else:
                # inside the index or value of a legal element
                y = self.op2('and', self.toint_(self.around(x, d)), self.const(7))
                l = self.idx(self.pick('int[]'), y)
                l.W = FX
                e = self.assign(l, self.int_(0))
            c = r.random()
            if c < 0.4 or x.t not in ('int', 'char', 'boolean') and kind == 'lhs':
                self.out(e.s + ';')
                ss.append(self.exp(e))
            else:
                e = self.around(e, d)
                e = put(e)
                self.out(e.s + ';')
                ss.append(self.exp(e))
        elif kind in ('put', 'ret', 'disc', 'comma', 'arg', 'ass', 'index', 'decl'):
            e = self.around(x, d)
            if kind == 'put':
                e = put(e)
            elif kind == 'arg':
                a = [self.const(3), self.int_(0), self.int_(0), self.toint_(e)]
                a[1:] = r.sample(a[1:], 3)
                e = self.call(self.f_putv, a)
            elif kind == 'ass':
                l = self.pick('int', True)
                e = self.assign(l, self.toint_(e))
            elif kind == 'index':
                e = put(self.idx(self.pick('int[]'), self.op2('and', self.toint_(e), self.const(7))))
            elif kind == 'comma':
                e = self.comma(self.call(self.f_put, [self.const(5)]), e)
            if kind == 'ret':
                e = self.toint_(e) if rt == 'int' else self.tobool(e)
                self.out('return %s;' % e.s)
                ss.append(self.nd('ret', a=e.n))
            elif kind == 'decl':
                e = self.toint_(e)
                v = self.newvar('int')
                self.out('int %s = %s;' % (v['name'], self.par(e, 3)))
                ss.append(self.exp(self.assign(self.var(v), e)))
            else:
                self.out(e.s + ';')
                ss.append(self.exp(e))
        elif kind == 'if':
            e = self.tobool(self.around(x, d))
            s1, n1 = puts(1)
            s2, n2 = puts(2)
            self.out('if (%s) %s else %s' % (e.s, s1, s2))
            ss.append(self.nd('if', a=e.n, b=n1, c=n2))
        elif kind == 'while':
            e = self.tobool(self.around(x, d))
            s1, n1 = puts(1)
            self.out('while (%s) { %s break; }' % (e.s, s1))
            ss.append(self.nd('while', a=e.n, b=self.nd('blk', args=[n1, self.nd('brk')])))
        elif kind == 'do':
            e = self.tobool(self.around(x, d))
            e = self.op2('land', e, self.op2('lt', self.var(v), self.const(0), 'boolean'), 'boolean')
            s1, n1 = puts(1)
            self.out('do { %s } while (%s);' % (s1, e.s))
            ss.append(self.nd('do', a=e.n, b=n1))
        elif kind in ('for0', 'for1', 'for2'):
            e = self.around(x, d)
            v = self.newvar('int')
            i0 = self.assign(self.var(v), self.const(0))
            cd = self.op2('lt', self.var(v), self.const(2), 'boolean')
            rc = self.assign(self.var(v), self.op2('add', self.var(v), self.const(1)))
            if kind == 'for0':
                i0 = self.assign(self.var(v), self.toint_(e))
                rc = self.assign(self.var(v), self.const(9))
            elif kind == 'for1':
                cd = self.op2('land', cd, self.tobool(e), 'boolean')
            else:
                rc = self.comma(rc, e)
            s1, n1 = puts(1)
            self.out('for (int %s; %s; %s) %s' % (i0.s, cd.s, rc.s, s1))
            ss.append(self.nd('for', i=self.exp(i0), a=cd.n, b=n1, r=rc.n))
        else:
            e = self.tobool(self.around(x, d))
            y = self.bool_(1)
            e = self.op2(kind, *r.choice([(y, e), (e, y), (y, e)]), 'boolean')
            e = put(e)
            self.out(e.s + ';')
            ss.append(self.exp(e))
        s1, n1 = puts(8)
        self.out(s1)
        ss.append(n1)
        if rt != 'void' and kind != 'ret':
            raise AssertionError
        if kind == 'ret':
            ss.pop()
            self.lines.pop()
        self.indent = 0
        self.out('}')
        ps = ', '.join('%s %s' % (pt, v['name']) for pt, v, e in self.params)
        self.lines[hl] = '%s %s(%s) {' % (rt, f['name'], ps)
        f['pts'] = [pt for pt, v, e in self.params]
        self.order.append(('.' + f['name'], len(self.params)))
        f['j']['body'] = self.nd('blk', args=ss)
        return f, [e for pt, v, e in self.params]


class Chain(Fault):
    """Chains of accesses a.b[i].c over three structure types; in each case one link (or none) is null, or one index is out
    of bounds.  Cases go through the positions of the chain systematically."""

    def build(self):
        r = self.rnd
        self.gv = []
        self.addext()
        self.globals_()
        for v in self.gv:
            if v['t'] not in ('int', 'char', 'boolean'):
                v['ro'] = True
        self.heapwords = 500
        self.pure = True
        self.calls_left = 0
        P, Q, T = self.name('S'), self.name('S'), self.name('S')
        self.st = {P: [('int', 'v'), ('char', 'c'), ('boolean', 'b'), ('int[]', 'a'), ('char[]', 'z'), (P, 'u'), (P + '[]', 'us')],
                   Q: [('int', 'w'), ('boolean', 'b'), ('char', 'd'), (P, 'p'), (P + '[]', 'ps'), (Q, 'q'), ('int[][]', 'm')],
                   T: [(Q, 'q'), (P, 'p'), (Q + '[]', 'qs'), (T, 't'), ('char', 'c'), ('int', 'v'), ('boolean[]', 'bs')]}
        for n in self.st:
            r.shuffle(self.st[n])
            self.order.append((n, len(self.st[n])))
            self.out('struct %s {%s};' % (n, ' '.join('%s %s;' % x for x in self.st[n])))
        dflt = {'int': '3', 'char': "'k'", 'boolean': 'true'}
        dval = {'int': 3, 'char': 107, 'boolean': 1}
        self.ob = {}                    # graph -> type -> globals
        for g in 'GH':
            o = self.ob[g] = {}
            for n in self.st:
                for _ in range(2):
                    o.setdefault(n, []).append(self.addglob(n, self.newobj([dval.get(t, 0) for t, f in self.st[n]]),
                                               '{%s}' % ', '.join(dflt.get(t, 'null') for t, f in self.st[n])))
                o[n + '[]'] = [self.addglob(n + '[]', self.newobj([0, 0]), '{null, null}')]
            o['int[]'] = [self.addglob('int[]', self.newobj([4, 5, 6]), '{4, 5, 6}')]
            o['char[]'] = [self.addglob('char[]', self.newobj([65, 66, 67]), "{'A', 'B', 'C'}")]
            o['boolean[]'] = [self.addglob('boolean[]', self.newobj([1, 0]), '{true, false}')]
            o['int[][]'] = [self.addglob('int[][]', self.newobj([0, 0]), '{null, null}')]
            for t in o:
                for v in o[t]:
                    self.gv.remove(v)
        self.rets = {}
        for t in self.st:
            f = self.begin(self.name('id'), t, [t])
            self.out('return %s;' % self.scope[0]['name'])
            self.end(f, [self.nd('ret', a=self.var(self.scope[0]).n)])
            self.rets[t] = f
        self.cases = []
        while len(self.cases) < self.ncases:
            steps = self.steps(r.choice([2, 2, 3, 3, 4, 5]))
            ks = list(range(len(steps) + 1))
            r.shuffle(ks)
            for k in ks[:3]:
                self.cases.append((steps, k))
        self.cases = self.cases[:self.ncases]
        fs = []
        for x in self.cases:
            self.cur = x
            fs.append(self.case())
        f = self.begin('main', 'int', [], True)
        ss = []

        def do(e):
            self.out(e.s + ';')
            ss.append(self.exp(e))
        for g, o in self.ob.items():
            for t in o:
                for v in o[t]:
                    if t in self.st:
                        for ft, fn in self.st[t]:
                            if ft in o:
                                do(self.assign(self.fld2(self.var(v), t, fn), self.var(r.choice(o[ft]))))
                    elif t[:-2] in o:
                        for i in range(2):
                            do(self.assign(self.idx(self.var(v), self.const(i)), self.var(r.choice(o[t[:-2]]))))
        s = self.newvar('int')
        self.out('int %s = get();' % s['name'])
        ss.append(self.exp(self.assign(self.var(s), self.call(self.f_get, []))))
        for k, (g, args) in enumerate(fs):
            c = self.op2('eq', self.var(s), self.const(k + 1), 'boolean')
            x = self.call(g, args)
            if g['t'] == 'int':
                x = self.call(self.f_put, [x])
            elif g['t'] == 'boolean':
                x = self.call(self.f_put, [self.op1('ord', x)])
            self.out('if (%s) %s;' % (c.s, x.s))
            ss.append(self.nd('if', a=c.n, b=self.exp(x), c=0))
        do(self.call(self.f_put, [self.const(99)]))
        self.out('return 0;')
        ss.append(self.nd('ret', a=self.const(0).n))
        self.end(f, ss)
        self.main = f['no']
        self.runs = [[k + 1] for k in range(self.ncases)]

    def fld2(self, e, t, fn):
        for k, (ft, f) in enumerate(self.st[t]):
            if f == fn:
                return self.dot(e, t, k, f, ft)

    def steps(self, n):
        """a chain: its root type and the fields and indices, ending in any type"""
        r = self.rnd
        while True:
            t = root = r.choice(list(self.st) + list(self.st) + [x + '[]' for x in self.st])
            res = []
            while len(res) < n:
                if t in self.st:
                    c = [x for x in self.st[t] if len(res) == n - 1 or x[0] not in ('int', 'char', 'boolean')]
                    t, f = r.choice(c)
                    res.append(('.', f, t))
                elif t.endswith('[]'):
                    t = t[:-2]
                    res.append(('[', None, t))
                else:
                    break
            if len(res) == n and t not in ('int[]', 'char[]', 'boolean[]', 'int[][]'):
                return [root] + res

    def refval(self, t):
        return self.var(self.rnd.choice(self.ob['H'][t]))

    def follow(self, e, t, steps, ix):
        for (s, f, ft), i in zip(steps, ix):
            e = self.fld2(e, t, f) if s == '.' else self.idx(e, self.const(i))
            t = ft
            e.W = FX
        return e

    def access(self, t):
        r = self.rnd
        (root, *steps), k = self.cur
        v = r.choice(self.ob['G'][root])
        ix = [r.randint(0, 1) for _ in steps]
        if k < len(steps) and steps[k][0] == '[' and r.random() < .5:
            ix[k] = r.choice([2, 3, 4, -1, 256])
        elif k < len(steps):
            # the reference that step k starts from becomes null
            x = self.assign(self.follow(self.var(v), root, steps[:k], ix), Ex(self.nd('const', v=0), 'void[]', 'null', 15))
            self.pre(x.s + ';', x)
        e = self.var(v)
        if r.random() < .4 and root in self.rets:
            e = self.hide(e, root)
        return self.follow(e, root, steps, ix)


class Ops(gen.Gen):
    """Every operator on every pair of kinds of operands, in varying contexts.  Program i of a
    run takes the i-th slice of the (fixed) list of triples."""
    IK = ['c0', 'c1', 'cm1', 'cs', 'cb', 'reg', 'stk', 'prm', 'gl', 'el', 'elv', 'fld', 'cloc', 'cprm',
          'cgl', 'cel', 'cfld', 'ordb', 'ordcmp', 'call', 'add', 'sub', 'mul', 'neg', 'not', 'ass', 'comma',
          'shr', 'size', 'el2', 'cconst']
    BK = ['t', 'f', 'reg', 'stk', 'prm', 'gl', 'el', 'fld', 'cmp', 'cmp0', 'land', 'lor', 'not', 'call',
          'bool', 'ass', 'refeq', 'comma']
    SLICE = 36

    @classmethod
    def triples(cls):
        import random
        t = [(o, a, b) for o in ARITH + CMP for a in cls.IK for b in cls.IK]
        t += [(o, a, b) for o in ('land', 'lor', 'eq', 'ne') for a in cls.BK for b in cls.BK]
        t += [(o, a, '') for o in ('neg', 'bnot', 'plus', 'chr', 'bool') for a in cls.IK] * 3
        t += [(o, a, '') for o in ('not', 'ord') for a in cls.BK] * 3
        random.Random(7).shuffle(t)
        return t

    def __init__(self, pid, rnd, mode, k):
        t = self.triples()
        n = self.SLICE
        k %= -(-len(t) // n)
        self.todo = t[k * n:(k + 1) * n]
        super().__init__(pid, rnd, mode, {'tiny': 1})

    def build(self):
        r = self.rnd
        self.gv = []
        self.addext()
        self.globals_()
        for v in self.gv:
            if v['t'] not in ('int', 'char', 'boolean'):
                v['ro'] = True
        self.calls_left = 0
        lim = 32767 if self.mode == 16 else 3000
        self.role = {'a': lambda: self.rint(),
                     'n': lambda: r.choice([1, 2, 3, 7, 100, 255, 256, 1000, lim, r.randint(1, lim)]),
                     's': lambda: r.choice([1, 2, 3, 4, 7, 8, 15] if self.mode == 16 else [1, 2, 3, 4])}
        self.bank = {}
        # globals of each role
        for ro, f in self.role.items():
            v = f()
            self.bank[ro, 'gl'] = self.addglob('int', v, '%d' % v)
            e = [f() for _ in range(4)]
            self.bank[ro, 'el'] = self.addglob('int[]', self.newobj(e), '{%s}' % ', '.join(map(str, e)))
            e = [[f() for _ in range(3)] for _ in range(2)]
            self.bank[ro, 'el2'] = self.addglob('int[][]', self.newobj([self.newobj(x) for x in e]), '{%s}' % ', '.join(
                '{%s}' % ', '.join(map(str, x)) for x in e))
            v = min(f() % 256 or 1, 255) if ro != 's' else f()
            self.bank[ro, 'cgl'] = self.addglob('char', v, "chr(%d)" % v)
            e = [v, v, v]
            self.bank[ro, 'cel'] = self.addglob('char[]', self.newobj(e), '{chr(%d), chr(%d), chr(%d)}' % tuple(e))
        for ro in self.role:
            for k in ('el', 'el2', 'cel'):
                self.gv.remove(self.bank[ro, k])
        # identity functions
        self.idf = {}
        for t in ('int', 'char', 'boolean'):
            f = self.begin(self.name('id'), t, [t])
            self.out('return %s;' % self.scope[0]['name'])
            self.end(f, [self.nd('ret', a=self.var(self.scope[0]).n)])
            self.idf[t] = f
        h = (len(self.todo) + 1) // 2
        fs = [self.test(self.todo[:h]), self.test(self.todo[h:])]
        f = self.begin('main', 'int', [], True)
        ss = []
        for g, args in fs:
            e = self.call(g, [self.cconst(a) if t == 'char' else self.bconst(a) if t == 'boolean' else self.const(a)
                              for t, a in args])
            self.out(e.s + ';')
            ss.append(self.exp(e))
        ss += self.dump()
        self.out('return 0;')
        ss.append(self.nd('ret', a=self.const(0).n))
        self.end(f, ss)
        self.main = f['no']

    def test(self, todo):
        r = self.rnd
        pts = ['int', 'char', 'boolean'] * 3
        r.shuffle(pts)
        f = self.begin(self.name('f'), 'int', pts)
        args = []
        ps = {t: [v for v in self.scope if v['t'] == t] for t in ('int', 'char', 'boolean')}
        vals = {}
        for i, ro in enumerate('ans'):
            self.bank[ro, 'prm'] = ps['int'][i]
            self.bank[ro, 'cprm'] = ps['char'][i]
            vals[ps['int'][i]['name']] = self.role[ro]()
            vals[ps['char'][i]['name']] = self.role[ro]() % 256 or 1
            vals[ps['boolean'][i]['name']] = r.randint(0, 1)
        args = [(v['t'], vals[v['name']]) for v in self.scope]
        self.boolp = ps['boolean'][0]
        ss = []

        def loc(t, v):
            w = self.newvar(t)
            c = self.const(v) if t == 'int' else self.op1('chr', self.const(v)) if t == 'char' else self.bconst(v)
            e = self.assign(self.var(w), c)
            self.out('%s %s = %s;' % (t, w['name'], c.s))
            ss.append(self.exp(e))
            self.scope.append(w)
            return w
        for ro in 'ans':
            self.bank[ro, 'reg'] = loc('int', self.role[ro]())
            self.bank[ro, 'cloc'] = loc('char', self.role[ro]() % 256 or 1)
        self.boolr = loc('boolean', r.randint(0, 1))
        self.tmp = loc('int', 5)
        self.btmp = loc('boolean', 0)
        for ro in 'ans':
            self.bank[ro, 'stk'] = loc('int', self.role[ro]())
        self.bools = loc('boolean', r.randint(0, 1))
        for o, a, b in todo:
            self.one(o, a, b, ss)
        self.out('return 0;')
        ss.append(self.nd('ret', a=self.const(0).n))
        self.end(f, ss)
        return f, args

    def ik(self, k, ro):
        """an operand of kind k; role a: any, n: 1.., s: 1..15"""
        r = self.rnd
        if k in ('c0', 'c1', 'cm1', 'cs', 'cb', 'cconst'):
            if ro == 's':
                return self.const(r.randint(1, 15 if self.mode == 16 else 4))
            v = {'c0': 0, 'c1': 1, 'cm1': -1, 'cs': r.randint(2, 255),
                 'cb': r.choice([256, 257, 1000, 4096, 32767, r.randint(256, 32767)])}.get(k, r.randint(0, 255))
            if ro == 'n':
                v = abs(v) or 1
            elif k == 'cb' and r.random() < .5:
                v = -v
            if self.mode == 32:
                v = max(-3000, min(3000, v))
            return self.cconst(v) if k == 'cconst' else self.const(v)
        if k in ('reg', 'stk', 'prm', 'gl', 'cloc', 'cprm', 'cgl'):
            return self.var(self.bank[ro, k])
        if k == 'el' or k == 'cel':
            return self.idx(self.var(self.bank[ro, k]), self.const(r.randint(0, 2)))
        if k == 'elv':
            return self.idx(self.var(self.bank[ro, 'el']), self.op2('and', self.var(self.bank['s', r.choice(['reg', 'gl', 'prm'])]), self.const(3)))
        if k == 'el2':
            return self.idx(self.idx(self.var(self.bank[ro, 'el2']), self.const(r.randint(0, 1))), self.const(r.randint(0, 2)))
        v = lambda ro=ro: self.var(self.bank[ro, r.choice(['reg', 'stk', 'prm', 'gl'])])
        if k in ('fld', 'cfld'):
            s = self.var(r.choice(self.structs))
            x = self.fld(s, 'x' if k == 'fld' else 'c')
            if ro == 'a':
                return x
            return self.op2('or', self.op2('and', x, self.const(7 if self.mode == 16 else 3)), self.const(1))
        if k == 'ordb':
            x = self.op1('ord', self.bk(r.choice(['reg', 'stk', 'gl'])))
        elif k == 'ordcmp':
            x = self.op1('ord', self.bk('cmp'))
        elif k == 'call':
            return self.call(self.idf['int'], [v()])
        elif k in ('add', 'sub', 'mul', 'shr'):
            x = self.op2(k, v('a'), self.const(3)) if r.random() < .5 else self.op2(k, v('a'), v('s'))
        elif k == 'neg':
            x = self.op1('neg', v('a'))
        elif k == 'not':
            x = self.op1('bnot', v('a'))
        elif k == 'ass':
            x = self.assign(self.var(self.tmp), v())
            return x
        elif k == 'comma':
            return self.comma(v('a'), v())
        elif k == 'size':
            x = self.size() if self.mode == 16 else self.const(2)
            return x if ro != 's' else self.const(2)
        if ro == 'n':
            x = self.op2('or', self.op2('and', x, self.const(127)), self.const(1))
        elif ro == 's':
            x = self.op2('and', x, self.const(7 if self.mode == 16 else 3))
        return x

    def bk(self, k):
        r = self.rnd
        v = lambda: self.var(self.bank[r.choice('ans'), r.choice(['reg', 'stk', 'prm', 'gl'])])
        if k == 't' or k == 'f':
            return self.bconst(int(k == 't'))
        if k == 'reg':
            return self.var(self.boolr)
        if k == 'stk':
            return self.var(self.bools)
        if k == 'prm':
            return self.var(self.boolp)
        if k == 'gl':
            return self.var(r.choice([g for g in self.gv if g['t'] == 'boolean']))
        if k == 'el':
            return self.idx(self.var(r.choice([g for g in self.gv if g['t'] == 'boolean[]'])), self.const(r.randint(0, 7)))
        if k == 'fld':
            return self.fld(self.var(r.choice(self.structs)), 'b')
        if k == 'cmp':
            return self.op2(r.choice(CMP), v(), v(), 'boolean')
        if k == 'cmp0':
            return self.op2(r.choice(CMP), v(), self.const(0), 'boolean')
        if k in ('land', 'lor'):
            return self.op2(k, self.bk(r.choice(['reg', 'cmp', 'gl'])), self.bk(r.choice(['stk', 'cmp', 'fld'])), 'boolean')
        if k == 'not':
            return self.op1('not', self.bk(r.choice(['reg', 'cmp', 'gl', 'land'])))
        if k == 'call':
            return self.call(self.idf['boolean'], [self.bk(r.choice(['reg', 'cmp', 'gl']))])
        if k == 'bool':
            return self.op1('bool', v())
        if k == 'ass':
            return self.assign(self.var(self.btmp), self.bk(r.choice(['reg', 'cmp', 'gl'])))
        if k == 'comma':
            return self.comma(v(), self.bk('reg'))
        t = r.choice(['int[]', self.sname])
        a, b = (self.var(r.choice([g for g in self.gv if g['t'] == t])) for _ in 'ab')
        if r.random() < .4:
            b = Ex(self.nd('const', v=0), 'void[]', 'null', 15)
        return self.op2(r.choice(['eq', 'ne']), a, b, 'boolean')

    def one(self, o, a, b, ss):
        r = self.rnd
        if o in ('land', 'lor') or o in ('eq', 'ne') and a in self.BK and b in self.BK and (
                a not in self.IK or b not in self.IK or r.random() < .5):
            x, y = self.bk(a), self.bk(b)
            if gen.conflict(x, y) and o not in ('land', 'lor'):
                y = self.bk('reg')
            e = self.op2(o, x, y, 'boolean')
        elif o in ('not', 'ord'):
            e = self.op1(o, self.bk(a))
        elif o in ('neg', 'bnot', 'plus', 'chr', 'bool'):
            e = self.op1(o, self.ik(a, 'a'))
            if o == 'chr':
                e = self.op1('ord', e)
        else:
            ra = rb = 'a'
            if o in ('div', 'mod'):
                ra = rb = 'n'
            elif o in ('shl', 'shr'):
                rb = 's'
                if self.mode == 32:
                    ra = 'n'
            elif o == 'mul' and self.mode == 32:
                rb = 's'
            if o in ('lt', 'le', 'gt', 'ge') and self.mode == 16:
                # an overflow of the other operand would be unspecified
                if b == 'c0':
                    ra = 's'
                if a == 'c0':
                    rb = 's'
            x, y = self.ik(a, ra), self.ik(b, rb)
            if gen.conflict(x, y):
                y = self.ik('reg', rb)
            e = self.op2(o, x, y, 'boolean' if o in CMP else 'int')
        self.show(e, ss)

    def show(self, e, ss):
        """e in some context"""
        r = self.rnd
        P = lambda x: self.call(self.f_put, [x])

        def stat(x):
            self.out(x.s + ';')
            ss.append(self.exp(x))
        if e.t == 'boolean':
            c = r.choice(['put', 'if', 'ifn', 'while', 'ass', 'and', 'or', 'eq', 'do', 'for', 'ret'])
            if c in ('if', 'ifn', 'and', 'or'):
                if c == 'ifn':
                    e = self.op1('not', e)
                elif c == 'and':
                    e = self.op2('land', self.var(self.boolr), e, 'boolean')
                elif c == 'or':
                    e = self.op2('lor', self.var(self.boolr), e, 'boolean')
                x, y = P(self.const(1)), P(self.const(2))
                self.out('if (%s) %s; else %s;' % (e.s, x.s, y.s))
                ss.append(self.nd('if', a=e.n, b=self.exp(x), c=self.exp(y)))
                return
            if c == 'while':
                x = P(self.const(3))
                self.out('while (%s) { %s; break; }' % (e.s, x.s))
                ss.append(self.nd('while', a=e.n, b=self.nd('blk', args=[self.exp(x), self.nd('brk')])))
                return
            if c == 'for':
                x = P(self.const(3))
                self.out('for (; %s; ) { %s; break; }' % (e.s, x.s))
                ss.append(self.nd('for', i=0, r=0, a=e.n, b=self.nd('blk', args=[self.exp(x), self.nd('brk')])))
                return
            if c == 'do':
                # a loop that ends after at most three rounds
                stat(self.assign(self.var(self.tmp), self.const(0)))
                i = self.assign(self.var(self.tmp), self.op2('add', self.var(self.tmp), self.const(1)))
                k = self.op2('lt', self.var(self.tmp), self.const(3), 'boolean')
                z = P(self.const(4))
                if ('l', self.tmp['v']) in e.W:
                    return stat(P(self.op1('ord', e)))
                w = self.op2('land', k, e, 'boolean')
                self.out('do { %s; %s; } while (%s);' % (i.s, z.s, w.s))
                ss.append(self.nd('do', a=w.n, b=self.nd('blk', args=[self.exp(i), self.exp(z)])))
                return
            if c == 'ass':
                stat(self.assign(self.var(self.btmp), e))
                return stat(P(self.op1('ord', self.var(self.btmp))))
            if c == 'eq':
                return stat(P(self.op1('ord', self.op2(r.choice(['eq', 'ne']), e, self.bconst(r.randint(0, 1)), 'boolean'))))
            return stat(P(self.op1('ord', e)))
        c = r.choice(['put', 'put', 'ass', 'assel', 'add', 'cmp', 'cmp0', 'idx', 'arg2', 'sub', 'asc', 'fld', 'asscel'])
        if c == 'ass':
            l = self.var(r.choice([self.tmp, self.bank['a', 'gl']]))
            stat(self.assign(l, e))
            return stat(P(self.var(self.tmp)))
        if c == 'assel' or c == 'fld' or c == 'asscel':
            if c == 'assel':
                l = self.idx(self.var(self.bank['a', 'el']), self.const(3))
                mk = lambda: self.idx(self.var(self.bank['a', 'el']), self.const(3))
            elif c == 'fld':
                s = self.structs[0]
                l = self.fld(self.var(s), 'y')
                mk = lambda: self.fld(self.var(s), 'y')
            else:
                e = self.op1('chr', e)
                v = r.choice([g for g in self.gv if g['t'] == 'char[]' and g is not self.strg and ('x' not in g)])
                l = self.idx(self.var(self.bank['a', 'cel']), self.const(2))
                mk = lambda: self.idx(self.var(self.bank['a', 'cel']), self.const(2))
            if not gen.conflict(self.lonly(l), e):
                stat(self.assign(l, e))
                return stat(P(mk()))
        if c == 'add' or c == 'sub':
            y = self.ik(r.choice(['reg', 'stk', 'gl', 'cs', 'cgl']), 'a')
            if not gen.conflict(e, y):
                return stat(P(self.op2(c, *r.choice([(e, y), (y, e)]))))
        if c == 'cmp' or c == 'cmp0':
            y = self.const(0) if c == 'cmp0' else self.ik(r.choice(['reg', 'stk', 'gl', 'cs', 'cgl']), 'a')
            if not gen.conflict(e, y):
                cs = ['eq', 'ne'] if c == 'cmp0' and self.nodes[e.n - 1]['k'] in ARITH + ['neg', 'comma', 'ass'] else CMP
                return self.show(self.op2(r.choice(cs), *(r.choice([(e, y), (y, e)])), 'boolean'), ss)
        if c == 'idx':
            return stat(P(self.idx(self.var(r.choice([g for g in self.gv if g['t'] == 'int[]' and g['name'] not in (
                self.bank[x, 'el']['name'] for x in 'ans')])), self.op2('and', e, self.const(7)))))
        if c == 'arg2':
            y, z = self.ik('reg', 'a'), self.ik('gl', 'a')
            if not gen.conflict(e, y) and not gen.conflict(e, z):
                a = [y, e, z]
                r.shuffle(a)
                return stat(self.call(self.f_putv, [self.const(3)] + a))
        stat(P(e))


class Deep(gen.Gen):
    """Few statements with deep, unbalanced expressions."""

    def __init__(self, pid, rnd, mode):
        self.budget = 60
        super().__init__(pid, rnd, mode, {'tiny': 1, 'deep': 1})

    def build(self):
        self.depth0 = self.rnd.choice([5, 6, 7, 8, 10, 12])
        super().build()

    def stat(self, inloop):
        self.budget = self.rnd.choice([12, 20, 30, 45])
        return super().stat(inloop)

    def int_(self, d):
        self.budget -= 1
        if self.budget <= 0 and d > 0:
            d = 0
        return super().int_(d)

    def bool_(self, d):
        self.budget -= 1
        if self.budget <= 0 and d > 0:
            d = 0
        return super().bool_(d)

    def arith(self, k, d):
        r = self.rnd
        if k in ('div', 'mod', 'shl', 'shr') or self.mode == 32 and k == 'mul' or r.random() < 0.2:
            return super().arith(k, d)
        a = self.int_(d - 1)
        y = lambda: self.int_(r.randint(0, 1))
        if r.random() < 0.35:
            return self.bin_(k, a, y, lambda: self.const(self.rint()))
        b = y()
        for _ in range(2):
            if not gen.conflict(a, b):
                break
            b = y()
        if gen.conflict(a, b):
            b = self.const(self.rint())
        return self.op2(k, b, a)


class Ctl(gen.Gen):
    """Control structures nested deeply around short expressions."""

    def __init__(self, pid, rnd, mode):
        super().__init__(pid, rnd, mode, {'tiny': 1, 'ctl': 1})

    def cond(self):
        r = self.rnd
        self.depth0 = 1
        if r.random() < 0.25:
            c = r.random()
            if c < .6:
                return self.bconst(r.randint(0, 1))
            if c < .8:
                return self.op2(r.choice(CMP), self.const(r.randint(0, 2)), self.const(r.randint(0, 2)), 'boolean')
            return self.op2(r.choice(['land', 'lor']), self.bool_(0), self.bconst(r.randint(0, 1)), 'boolean')
        return super().cond()

    def stat(self, inloop):
        r = self.rnd
        self.depth0 = 1
        c = r.random()
        self.calls_left = 0
        if self.indent < 6 and self.stmts > 0:
            if c < 0.1 and self.indent < 5:
                self.stmts -= 1
                return self.tails(inloop)
            if c < 0.3:
                self.stmts -= 1
                return self.ifstat(inloop)
            if c < 0.55 and self.loopd < 3:
                self.stmts -= 1
                return self.loop()
            if c < 0.62 and self.loopd < 3:
                self.stmts -= 1
                return self.once(inloop)
            if c < 0.70 and inloop:
                e = self.cond()
                k = r.choice(['brk', 'cnt'])
                self.out('if (%s) %s;' % (e.s, 'break' if k == 'brk' else 'continue'))
                return self.nd('if', a=e.n, b=self.nd(k), c=0)
        self.stmts -= 1
        if c < 0.9:
            e = self.call(self.f_put, [self.int_(r.choice([0, 0, 1]))])
            self.out(e.s + ';')
            return self.exp(e)
        return super().stat(inloop)

    def tails(self, inloop, d=0):
        """if-else statements whose arms end in every way; without braces only where no else can go astray"""
        r = self.rnd
        e = self.cond()
        n = []
        for head in ('if (%s)' % e.s, 'else'):
            i = len(self.lines)
            self.out(head + ' {')
            self.indent += 1
            ss, bare = self.arm(inloop, d + 1)
            self.indent -= 1
            if bare and r.random() < .6:
                self.lines[i] = self.lines[i][:-2]
                n.append(ss[0])
            else:
                self.out('}')
                n.append(self.nd('blk', args=ss))
        return self.nd('if', a=e.n, b=n[0], c=n[1], open=False)

    def arm(self, inloop, d):
        r = self.rnd
        self.calls_left = 0
        ss = [self.put()] if r.random() < .6 else []
        c = r.random()
        if c < .15:
            return ss, False
        if c < (.55 if d < 3 else .15):
            ss.append(self.tails(inloop, d))
            return ss, len(ss) == 1
        if c < .6:
            self.out('{')
            self.indent += 1
            t, _ = self.arm(inloop, d + 1)
            self.indent -= 1
            self.out('}')
            ss.append(self.nd('blk', args=t))
            return ss, len(ss) == 1
        k = (['brk', 'cnt'] * inloop + ['ret'] * (self.fn['name'] != 'main' and not self.vret)) or ['put']
        k = r.choice(k)
        if k == 'ret':
            ss.append(self.ret_())
        elif k == 'put' or c > .9:
            ss.append(self.put())
        else:
            self.out('break;' if k == 'brk' else 'continue;')
            ss.append(self.nd(k))
        return ss, len(ss) == 1

    def jump(self, cond):
        r = self.rnd
        k = r.choice(['brk', 'cnt'])
        j = {'brk': 'break;', 'cnt': 'continue;'}[k]
        if not cond:
            self.out(j)
            return self.nd(k)
        e = self.cond()
        if r.random() < .5:
            self.out('if (%s) %s' % (e.s, j))
            return self.nd('if', a=e.n, b=self.nd(k), c=0)
        self.out('if (%s) { %s }' % (e.s, j))
        return self.nd('if', a=e.n, b=self.nd('blk', args=[self.nd(k)]), c=0)

    def block(self, n, inloop):
        """now and then with jumps inside and at the end"""
        r = self.rnd
        if not inloop or r.random() < .6:
            return super().block(n, inloop)
        pre = [self.jump(True)] if r.random() < .5 else []
        ss = super().block(n, inloop)
        post = [self.jump(r.random() < .3)] if r.random() < .7 else []
        return pre + ss + post

    def once(self, inloop):
        """do ... while (false), or a loop left by break"""
        r = self.rnd
        self.loopd += 1
        if r.random() < .7:
            f = r.choice(['false', '1 == 2', '!true'])
            b = self.body(True, 'do')
            e = self.bconst(0)
            self.lines[-1] += ' while (%s);' % f
            n = self.nd('do', a=e.n, b=b)
        else:
            h, k = r.choice([('while (true)', 'while'), ('for (;;)', 'for'), ('for (; true; )', 'for1'), ('do', 'do')])
            self.out(h + ' {')
            self.indent += 1
            ss = self.block(r.randint(1, 3), True)
            self.out('break;')
            ss.append(self.nd('brk'))
            self.indent -= 1
            self.out('}' + (' while (true);' if k == 'do' else ''))
            b = self.nd('blk', args=ss)
            e = self.bconst(1)
            if k == 'for':
                n = self.nd('for', i=0, a=0, b=b, r=0)
            elif k == 'for1':
                n = self.nd('for', i=0, a=e.n, b=b, r=0)
            else:
                n = self.nd(k, a=e.n, b=b)
        self.loopd -= 1
        return n

    def func(self, name, t, pts, pub, nst, nloc, extra=None):
        return super().func(name, t, pts, pub, self.rnd.randint(6, 14), nloc, extra)


class Tails(Ctl):
    """Nested if-else and loops whose arms end in every way, every path taken: the conditions are the bits of a parameter."""

    def build(self):
        r = self.rnd
        self.gv = []
        self.addext()
        self.depth0, self.vret, self.mark_, self.loopd = 0, False, 0, 0
        fs = []
        for i in range(2):
            self.void = r.random() < .5
            f = self.begin(self.name('f'), 'void' if self.void else 'int', ['int'], r.random() < .5)
            self.p, self.bit = self.scope[0], 0
            ss = [self.form(r.choice(['for', 'for', 'do', 'while', 'forever', 'blk', '']))]
            if r.random() < .5:
                ss.append(self.put())
            if not self.void:
                ss.append(self.ret_())
            elif r.random() < .3:
                ss.append(self.form(''))
            self.end(f, ss)
            fs.append(f)
        f = self.begin('main', 'int', [], True)
        ss = []
        for g in fs:
            v = self.newvar('int')
            i0 = self.nd('exp', a=self.assign(self.var(v), self.const(0)).n)
            cd = self.op2('lt', self.var(v), self.const(16), 'boolean')
            inc = self.assign(self.var(v), self.op2('add', self.var(v), self.const(1)))
            self.calls_left = 2
            e = self.call(g, [self.var(v)])
            if g['t'] != 'void':
                e = self.call(self.f_put, [e])
            self.out('for (int %s = 0; %s; %s) %s;' % (v['name'], cd.s, inc.s, e.s))
            ss.append(self.nd('for', i=i0, a=cd.n, b=self.exp(e), r=inc.n))
        self.out('return 0;')
        ss.append(self.nd('ret', a=self.const(0).n))
        self.end(f, ss)
        self.main = f['no']

    def cond(self):
        r = self.rnd
        k = 1 << self.bit % 4
        self.bit += r.choice([1, 1, 1, 2])
        c = self.op2('and', self.var(self.p), self.const(k))
        e = self.op2(r.choice(['ne', 'ne', 'eq']), c, self.const(0), 'boolean')
        if r.random() < .2:
            return self.op2(r.choice(['land', 'lor']), e, self.op2('ne', self.op2('and', self.var(self.p), self.const(8)), self.const(0), 'boolean'))
        return self.op1('not', e, 'boolean') if r.random() < .1 else e

    def put(self):
        self.mark_ += 1
        e = self.call(self.f_put, [self.const(self.mark_)])
        self.out(e.s + ';')
        return self.exp(e)

    def ret_(self):
        if self.void:
            self.out('return;')
            return self.nd('ret', a=0)
        self.mark_ += 1
        e = self.const(self.mark_)
        self.out('return %s;' % e.s)
        return self.nd('ret', a=e.n)

    def seq(self, inloop):
        r = self.rnd
        ss = []
        for _ in range(r.choice([1, 1, 2])):
            ss.append(self.tails(inloop, r.choice([0, 0, 1])))
            if r.random() < .5:
                ss.append(self.put())
        return ss

    def form(self, k):
        """a statement with such sequences inside; a loop ends after three rounds at most"""
        r = self.rnd
        if not k:
            return self.tails(False)
        if k == 'blk':
            self.out('{')
            self.indent += 1
            ss = self.seq(False)
            self.indent -= 1
            self.out('}')
            return self.nd('blk', args=ss)
        v = self.newvar('int')
        i0 = self.nd('exp', a=self.assign(self.var(v), self.const(0)).n)
        inc = lambda: self.assign(self.var(v), self.op2('add', self.var(v), self.const(1)))
        cd = lambda: self.op2('lt', self.var(v), self.const(2), 'boolean')
        if k == 'for':
            c, u = cd(), inc()
            self.out('for (int %s = 0; %s; %s) {' % (v['name'], c.s, u.s))
            self.indent += 1
            ss = self.seq(True)
            self.indent -= 1
            self.out('}')
            return self.nd('for', i=i0, a=c.n, b=self.nd('blk', args=ss), r=u.n)
        self.out('{ int %s = 0;' % v['name'])
        self.indent += 1
        c = cd()
        head = {'do': 'do {', 'while': 'while (%s) {' % c.s, 'forever': r.choice(['for (;;) {', 'while (true) {'])}[k]
        always = head[0] == 'w' and k == 'forever'
        self.out(head)
        self.indent += 1
        u = inc()
        self.out(u.s + ';')
        ss = [self.exp(u)]
        if k == 'forever':
            z = self.op2('gt', self.var(v), self.const(3), 'boolean')
            self.out('if (%s) break;' % z.s)
            ss.append(self.nd('if', a=z.n, b=self.nd('brk'), c=0))
        ss += self.seq(True)
        self.indent -= 1
        b = self.nd('blk', args=ss)
        if k == 'do':
            self.out('} while (%s);' % c.s)
            n = self.nd('do', a=c.n, b=b)
        else:
            self.out('}')
            n = self.nd('while', a=self.bconst(1).n if always else c.n, b=b) if k == 'while' or always else \
                self.nd('for', i=0, a=0, b=b, r=0)
        self.indent -= 1
        self.out('}')
        return self.nd('blk', args=[i0, n])


class Bad(Exception):
    pass


class Fold(gen.Gen):
    """Expressions full of constants, with the shapes an optimizer rewrites.  Values of the
    variables are known here, so that expressions without a defined value are not generated."""
    N = 40

    def __init__(self, pid, rnd, mode, weird=True):
        self.weird = weird
        super().__init__(pid, rnd, mode, {'tiny': 1})

    def build(self):
        r = self.rnd
        self.full = r.choice([0, 0, 0, 0.3])
        self.gv, self.fields, self.structs = [], [], []
        self.addext()
        self.inp = [r.choice([5, 100, 7, 1])] * 3
        self.env = {}
        for t in ('int', 'int', 'boolean', 'char'):
            v = self.val(t)
            g = self.addglob(t, v, {'int': '%d' % v, 'boolean': ('false', 'true')[v & 1], 'char': "chr(%d)" % v}[t])
            self.env['gl', g['v']] = v
        f = self.begin(self.name('f'), 'int', ['int', 'int', 'boolean', 'char'])
        args = []
        for v in self.scope:
            x = self.val(v['t'])
            self.env['prm', v['v']] = x
            args.append((v['t'], x))
        ss = []
        for t in ('int', 'int', 'boolean', 'char', 'int'):
            w = self.newvar(t)
            v = self.val(t)
            self.env['loc', w['v']] = v
            c = self.const(v) if t == 'int' else self.bconst(v) if t == 'boolean' else self.op1('chr', self.const(v))
            self.out('%s %s = %s;' % (t, w['name'], c.s))
            ss.append(self.exp(self.assign(self.var(w), c)))
            self.scope.append(w)
        self.tmp, self.btmp = self.newvar('int'), self.newvar('boolean')
        self.out('int %s = 0; boolean %s = false;' % (self.tmp['name'], self.btmp['name']))
        ss.append(self.exp(self.assign(self.var(self.tmp), self.const(0))))
        ss.append(self.exp(self.assign(self.var(self.btmp), self.bconst(0))))
        n = 0
        tries = 0
        while n < self.N and tries < 100 * self.N:
            tries += 1
            self.used = False
            k = len(self.nodes)
            e = self.tree(r.randint(2, 5), 'int' if r.random() < .7 else 'boolean')
            try:
                self.ev(e.n)
            except Bad:
                del self.nodes[k:]
                continue
            n += 1
            self.use(e, ss)
        self.out('return 0;')
        ss.append(self.nd('ret', a=self.const(0).n))
        self.end(f, ss)
        m = self.begin('main', 'int', [], True)
        e = self.call(f, [self.cconst(v) if t == 'char' else self.bconst(v) if t == 'boolean' else self.const(v)
                          for t, v in args])
        self.out(e.s + ';')
        ss = [self.exp(e)]
        self.out('return 0;')
        ss.append(self.nd('ret', a=self.const(0).n))
        self.end(m, ss)
        self.main = m['no']

    def use(self, e, ss):
        r = self.rnd
        P = lambda x: self.call(self.f_put, [x])

        def stat(x):
            self.out(x.s + ';')
            ss.append(self.exp(x))
        c = r.random()
        if e.t == 'boolean':
            if c < .4:
                x, y = P(self.const(1)), P(self.const(2))
                if r.random() < .5:
                    self.out('if (%s) %s; else %s;' % (e.s, x.s, y.s))
                    ss.append(self.nd('if', a=e.n, b=self.exp(x), c=self.exp(y)))
                else:
                    self.out('if (%s) %s;' % (e.s, x.s))
                    ss.append(self.nd('if', a=e.n, b=self.exp(x), c=0))
            elif c < .5:
                x = P(self.const(3))
                w = r.choice(['while', 'for'])
                self.out(('while (%s) { %s; break; }' if w == 'while' else 'for (; %s; ) { %s; break; }') % (e.s, x.s))
                b = self.nd('blk', args=[self.exp(x), self.nd('brk')])
                ss.append(self.nd('while', a=e.n, b=b) if w == 'while' else self.nd('for', i=0, r=0, a=e.n, b=b))
            elif c < .6:
                x = self.assign(self.var(self.btmp), e)
                stat(x)
                stat(P(self.op1('ord', self.var(self.btmp))))
            else:
                stat(P(self.op1('ord', e)))
        elif c < .3:
            stat(self.assign(self.var(self.tmp), e))
            stat(P(self.var(self.tmp)))
        else:
            stat(P(e))

    def val(self, t):
        r = self.rnd
        if t == 'boolean':
            return r.randint(0, 1)
        if t == 'char':
            return r.choice([0, 1, 2, 127, 128, 255, r.randint(0, 255)])
        if self.mode == 32:
            return r.choice([0, 1, 2, 3, 5, 7, 100, -1, -2, -7, -100, r.randint(-5000, 5000)])
        return r.choice([0, 1, 2, 3, 5, 7, 100, 255, 256, 1000, 20000, 32767, -1, -2, -7, -100, -20000, -32768,
                         r.randint(-32768, 32767)])

    def leaf_(self, t):
        r = self.rnd
        c = r.random()
        if t == 'boolean':
            if c < .4:
                return self.bconst(r.randint(0, 1))
            return self.var(r.choice([v for v in self.scope + self.gv if v['t'] == t]))
        if c < .55:
            v = r.choice([0, 0, 1, 1, 2, 3, 4, 5, 8, 10, 16, 100, 255, 256, -1, -1, -2, -3, -5, -16, -256,
                          self.val('int')])
            if self.mode == 16 and v < 0 and self.weird and r.random() < .2:
                n = self.nd('const', v=v)
                return Ex(n, 'int', '0x%x' % (v + 65536), 15, c=v)
            return self.const(v)
        if c < .6:
            return self.op1('ord', self.leaf_('boolean'))
        if c < .65:
            return self.cconst(self.val('char'))
        if c < .72 and not self.used:
            self.used = True
            return self.call(self.f_get, [])
        return self.var(r.choice([v for v in self.scope + self.gv if v['t'] in ('int', 'int', 'char')]))

    GROUPS = [['add', 'sub'], ['add', 'sub'], ['mul'], ['div'], ['mod'], ['and'], ['or'], ['xor'], ['shl'], ['shr'],
              ['add', 'sub', 'mul'], ['and', 'or', 'xor'], ['mul', 'div'], ['shl', 'shr'], ARITH]

    def tree(self, n, t, grp=None):
        r = self.rnd
        if n <= 1:
            return self.leaf_(t)
        if t == 'boolean':
            c = r.random()
            k = r.randint(1, n - 1)
            if c < .5:
                return self.op2(r.choice(['land', 'lor']), self.tree(k, t), self.tree(n - k, t), t)
            if c < .65:
                return self.op1('not', self.tree(n - 1, t))
            if c < .75:
                return self.op2(r.choice(['eq', 'ne']), self.tree(k, t), self.tree(n - k, t), t)
            if c < .8:
                return self.op1('bool', self.tree(n - 1, 'int'))
            return self.op2(r.choice(CMP), self.tree(k, 'int'), self.tree(n - k, 'int'), t)
        c = r.random()
        if c < .12:
            return self.op1(r.choice(['neg', 'bnot', 'neg', 'plus']), self.tree(n - 1, t, grp))
        if c < .16:
            return self.op1('ord', self.tree(n - 1, 'boolean'))
        if c < .2:
            return self.op1('ord', self.op1(r.choice(['chr', 'bool']), self.tree(n - 1, 'int')))
        if c < .22:
            return self.comma(self.leaf_('int'), self.tree(n - 1, t))
        if not grp or r.random() < .15:
            grp = r.choice(self.GROUPS)
        k = r.choice([n - 1, n - 1, 1, r.randint(1, n - 1)])
        return self.op2(r.choice(grp), self.tree(k, t, grp), self.tree(n - k, t, grp))

    def ev(self, n):
        """value of an expression; Bad if it has none (the rules of spec/Cmm.tla)"""
        d = self.nodes[n - 1]
        k = d['k']
        if k in ('const', 'sizeof'):
            return d['v']
        if k in ('loc', 'prm', 'gl'):
            return self.env[k, d['v']]
        if k == 'call':
            return self.inp[0]
        m16 = self.mode == 16
        if k in ('land', 'lor'):
            a, b = self.ev(d['a']), self.ev(d['b'])
            return a & b if k == 'land' else a | b
        if k == 'comma':
            self.ev(d['a'])
            return self.ev(d['b'])
        a = self.ev(d['a'])
        f = d.get('f', 0)

        def norm(x):
            if m16:
                if -32768 <= x <= 32767:
                    return x
                if f:
                    raise Bad
                return gen.wrap(x, 16)
            if abs(x) > 1073741823:
                raise Bad
            return x
        if k == 'neg':
            return norm(-a)
        if k == 'bnot':
            return -a - 1
        if k in ('plus', 'ord'):
            return a
        if k == 'not':
            return 1 - a
        if k == 'chr':
            return a & 255
        if k == 'bool':
            return a & 1
        b = self.ev(d['b'])
        if m16 and (f == 2 and (abs(a) > 4000 or abs(b) > 4000) or f and k == 'sub' and b == -32768):
            raise Bad
        if k in ('add', 'sub', 'mul'):
            return norm({'add': a + b, 'sub': a - b, 'mul': a * b}[k])
        if k in ('div', 'mod'):
            if b == 0 or m16 and (a < 0 or b < 0):
                raise Bad
            return gen.arith(k, a, b, 32)
        if k in ('shl', 'shr'):
            if not 0 <= b <= (15 if m16 else 30):
                raise Bad
            if k == 'shr':
                return a >> b
            if m16:
                x = gen.wrap(a << b, 16)
                if f and x >> b != a:
                    raise Bad
                return x
            if a < 0 or a << b > 1073741823:
                raise Bad
            return a << b
        return gen.arith(k, a, b, 32)


class Conv(Fold):
    """chr(), bool() and ord() written directly over one operation with a constant on one side,
    for every operation and the constants where a shortcut goes wrong; program number `part`
    of PARTS holds every PARTS-th shape."""
    N, PARTS = 1, 24
    CONSTS = [0, 1, -1, 2, -2, 3, 8, 15, 16, 127, 128, 255, 256, 257, -128, -255, -256, -257, 32767]

    def __init__(self, pid, rnd, mode, part):
        ops = ['add', 'sub', 'mul', 'div', 'mod', 'and', 'or', 'xor', 'shl', 'shr', 'eq', 'lt', 'ge']
        sh = [(cv, op, k, side) for cv in ('chr', 'bool', 'chrchr', 'boolchr') for op in ops for k in self.CONSTS
              for side in (0, 1)]
        sh += [(cv, op, 0, 0) for cv in ('chr', 'bool', 'chrchr', 'boolchr') for op in ('neg', 'bnot', 'plus', 'comma')]
        self.todo = sh[part % self.PARTS::self.PARTS]
        self.N = len(self.todo)
        self.step = 0
        super().__init__(pid, rnd, mode)

    def tree(self, n, t, grp=None):
        r = self.rnd
        self.step += 1
        if self.step % 8 == 0:                    # the shape has no value here: take the next one
            self.todo.append(self.todo.pop(0))
        cv, op, k, side = self.todo[0]
        v = self.var(r.choice([v for v in self.scope + self.gv if v['t'] in ('int', 'int', 'char')]))
        c = self.const(k)
        if op in ('neg', 'bnot', 'plus'):
            e = self.op1(op, v)
        elif op == 'comma':
            e = self.comma(self.leaf_('int'), v)
        elif op in ('eq', 'lt', 'ge'):
            e = self.op1('ord', self.op2(op, c, v, 'boolean') if side else self.op2(op, v, c, 'boolean'))
        else:
            e = self.op2(op, c, v) if side else self.op2(op, v, c)
        for x in {'chr': ['chr'], 'bool': ['bool'], 'chrchr': ['chr', 'ord', 'chr'], 'boolchr': ['chr', 'ord', 'bool']}[cv]:
            e = self.op1(x, e)
        return self.op1('ord', e)

    def use(self, e, ss):
        self.todo.pop(0)
        self.step = 0
        super().use(e, ss)


class Calls(gen.Gen):
    """Functions with many parameters and local variables, called from inside expressions,
    mutually recursive, before their definition, and with variable argument lists (mode 16)."""

    def __init__(self, pid, rnd, mode, va=False):
        self.vargs = va
        super().__init__(pid, rnd, mode, {'tiny': 1})

    def build(self):
        r = self.rnd
        self.gv = []
        self.addext()
        if self.vargs:
            f = dict(no=len(self.funcs) + 1, name='_args', t='void[]', pts=[], R=set(gen.ALLX), W=set(gen.ALLX),
                     j=dict(ext=1, nl=0, body=0, void=0, args=[], rk='a', name='_args', esz=0, va=0, mw=1, mu=1))
            self.funcs.append(f)
            self.out('public void[] _args();')
            self.order.append(('__args', 0))
            self.f_args = f
        self.globals_()
        for v in self.gv:
            if v['t'] not in ('int', 'char', 'boolean'):
                v['ro'] = True
        self.calls_left = 0
        self.depth0 = 2
        for i in range(r.randint(1, 3)):
            t = r.choice(['int', 'int', 'boolean', 'char', 'void', 'int[]', self.sname])
            pts = [r.choice(['int', 'int', 'char', 'boolean', 'int[]', self.sname, 'char[]', 'void[]'])
                   for _ in range(r.choice([0, 1, 2, 3, 5, 8, 12, 20]))]
            self.func(self.name('f'), t, pts, r.random() < 0.4, r.randint(1, 3),
                      r.choice([0, 1, 2, 7, 8, 9, 10, 11, 14, 20]))
        va = [self.variadic() for _ in range(2)] if self.vargs else []
        mu = self.mutual() if r.random() < .7 else None

        def pro():
            ss = []
            for v in self.structs:
                for f, src in (('a', [x for x in self.gv if x['t'] == 'int[]']), ('n', self.structs),
                               ('s', [x for x in self.gv if x['t'] == 'char[]'])):
                    e = self.assign(self.fld(self.var(v), f), self.var(r.choice(src)))
                    self.out(e.s + ';')
                    ss.append(self.exp(e))
            if self.sarr:
                for i in range(4):
                    for f, src in (('a', [x for x in self.gv if x['t'] == 'int[]']), ('n', self.structs),
                                   ('s', [x for x in self.gv if x['t'] == 'char[]'])):
                        e = self.assign(self.fld(self.idx(self.var(self.sarr), self.const(i)), f), self.var(r.choice(src)))
                        self.out(e.s + ';')
                        ss.append(self.exp(e))
            if mu:
                for k in range(2):
                    e = self.call(self.f_put, [self.call(mu[k], [self.const(r.randint(0, 5)), self.const(self.rint())])])
                    self.out(e.s + ';')
                    ss.append(self.exp(e))
            for f in va:
                for _ in range(2):
                    n = r.randint(0, 6)
                    self.calls_left = 1
                    a = [self.const(n)]
                    for _ in range(n):
                        x = self.expr(r.choice(['int', 'char', 'boolean', 'int']), 1)
                        x = self.ensure(x, a, lambda: self.const(5))
                        a.append(x)
                    e = self.fx(self.call(self.f_put, [self.call(f, a)]))
                    self.out(e.s + ';')
                    ss.append(self.exp(e))
            return ss
        m = self.func('main', 'int', [], True, r.randint(2, 5), r.choice([0, 2, 9, 12]), pro)
        self.main = m['no']

    def variadic(self):
        """int f(int n, ...): shows its arguments"""
        f = self.begin(self.name('va'), 'int', ['int'])
        self.lines[-1] = self.lines[-1].replace(') {', ', ...) {')
        self.order[-1] = (self.order[-1][0], 2)
        f['R'] |= gen.ALLX
        f['W'] |= gen.ALLX
        n = self.scope[0]
        ss = []
        for _ in range(self.rnd.choice([0, 1, 9])):
            w = self.newvar('int')
            self.out('int %s = %s;' % (w['name'], n['name']))
            ss.append(self.exp(self.assign(self.var(w), self.var(n))))
        a = self.newvar('int[]')
        c = self.call(self.f_args, [])
        self.out('int[] %s = _args();' % a['name'])
        c.t = 'int[]'
        ss.append(self.exp(self.assign(self.var(a), c)))
        i = self.newvar('int')
        i0 = self.assign(self.var(i), self.const(0))
        cd = self.op2('le', self.var(i), self.var(n), 'boolean')
        inc = self.assign(self.var(i), self.op2('add', self.var(i), self.const(1)))
        p = self.call(self.f_put, [self.idx(self.var(a), self.var(i))])
        self.out('for (int %s; %s; %s) %s;' % (i0.s, cd.s, inc.s, p.s))
        ss.append(self.nd('for', i=self.exp(i0), a=cd.n, b=self.exp(p), r=inc.n))
        self.out('return %s;' % n['name'])
        ss.append(self.nd('ret', a=self.var(n).n))
        self.end(f, ss)
        f['ok'] = False
        return f

    def mutual(self):
        """two functions calling each other; the second is declared first, or both by prototypes"""
        r = self.rnd
        fs = []
        names = [self.name('ra'), self.name('rb')]
        for nm in names:
            f = dict(no=len(self.funcs) + 1, name=nm, t='int', pts=['int', 'int'], R=set(gen.ALLX), W=set(gen.ALLX),
                     j=dict(ext=0, nl=0, body=0, void=0, args=[], rk='v', name=nm))
            self.funcs.append(f)
            fs.append(f)
        proto = {1} if r.random() < .7 else {0, 1}
        for k in sorted(proto):
            self.out('int %s(int p, int q);' % names[k])
            self.order.append(('.' + names[k], 2))
        for k in (0, 1):
            f = fs[k]
            if k not in proto:
                self.order.append(('.' + f['name'], 2))
            self.fn = f
            self.nslot = 0
            self.calls_left = 0
            n_ = dict(k='prm', v=1, t='int', name=self.name('p'), ro=True)
            a_ = dict(k='prm', v=2, t='int', name=self.name('p'))
            self.scope = [n_, a_]
            self.out('int %s(int %s, int %s) {' % (f['name'], n_['name'], a_['name']))
            self.indent = 1
            self.dead, self.inuse = [], set()
            ss = [self.decl('int') for _ in range(r.choice([0, 1, 3, 9, 10]))]
            c = self.op2('le', self.var(n_), self.const(0), 'boolean')
            e = self.fx(self.int_(2))
            self.out('if (%s) return %s;' % (c.s, e.s))
            ss.append(self.nd('if', a=c.n, b=self.nd('ret', a=e.n), c=0))
            ss.append(self.put())
            loc = [v for v in self.scope if v['t'] == 'int']
            x = self.call(fs[1 - k] if r.random() < .8 else f,
                          [self.op2('sub', self.var(n_), self.const(1)), self.var(r.choice(loc))])
            y = self.var(r.choice(loc))
            e = self.op2(r.choice(['add', 'sub', 'xor', 'and', 'or']), *((x, y) if r.random() < .5 else (y, x)))
            v = self.newvar('int')
            self.out('int %s = %s;' % (v['name'], e.s))
            ss.append(self.exp(self.assign(self.var(v), e)))
            self.scope.append(v)
            for w in r.sample(loc, min(2, len(loc))):
                p = self.call(self.f_put, [self.var(w)])
                self.out(p.s + ';')
                ss.append(self.exp(p))
            self.out('return %s;' % v['name'])
            ss.append(self.nd('ret', a=self.var(v).n))
            self.indent = 0
            self.out('}')
            f['j']['body'] = self.nd('blk', args=ss)
        return fs


class Intr(gen.Gen):
    """A program with an interrupt function (option -K)."""

    def __init__(self, pid, rnd, mode=16):
        super().__init__(pid, rnd, mode, {'tiny': 1})

    def build(self):
        r = self.rnd
        self.depth0 = r.choice([1, 2, 3])
        super().build()

    def globals_(self):
        r = self.rnd
        # what belongs to the interrupt function
        super().globals_()
        for v in self.gv:
            if v['t'] not in ('int', 'char', 'boolean'):
                v['ro'] = True
        nst, d = self.structs, self.depth0
        self.depth0 = r.choice([1, 2, 3])
        self.calls_left = 0
        n0 = len(self.funcs)
        for _ in range(r.choice([0, 0, 1])):
            self.func(self.name('h'), r.choice(['int', 'void', 'char']), [r.choice(['int', 'char', 'int[]'])] * r.randint(0, 2),
                      False, r.randint(1, 2), r.choice([0, 0, 1, 10]))

        def pro():
            ss = []
            for v in self.structs:
                for f, src in (('a', [x for x in self.gv if x['t'] == 'int[]']), ('n', self.structs),
                               ('s', [x for x in self.gv if x['t'] == 'char[]'])):
                    e = self.assign(self.fld(self.var(v), f), self.var(r.choice(src)))
                    self.out(e.s + ';')
                    ss.append(self.exp(e))
            return ss
        k = len(self.lines)
        nm = self.name('intr')
        pub = r.random() < .5
        self.sarr = None
        self.gv = [v for v in self.gv if v['t'] != self.sname + '[]']
        f = self.func(nm, 'void', [], pub, r.randint(0, 3), r.choice([0, 0, 1, 3, 9, 12]), pro if r.random() < .7 else None)
        for i in range(k, len(self.lines)):
            if 'void %s()' % nm in self.lines[i]:
                self.lines[i] = self.lines[i].replace('void ' + nm, 'interrupt ' + nm)
        self.intr = f['no']
        self.intrname = ('_' if pub else '1.') + nm
        for f in self.funcs[n0:]:
            f['ok'] = False
        self.indent = 0
        self.depth0 = d
        # what belongs to the program
        self.gv = []
        super().globals_()
        self.nl0 = len(self.lines)

    def json(self):
        j = super().json()
        j['intr'] = self.intr
        return j


class Prec(Fold):
    """Expressions printed with as few parentheses as the documented precedence allows (or with
    all), each called with several operand values; trees of && || ! with visible operands."""
    N = 14

    def __init__(self, pid, rnd, mode, full=0):
        self.full_ = full
        super().__init__(pid, rnd, mode)

    def build(self):
        r = self.rnd
        self.full = self.full_
        self.odd = 0
        self.gv, self.fields, self.structs = [], [], []
        self.addext()
        self.env = {}
        self.inp = [1]
        # boolean t(int i, boolean v) { put(i); return v; }
        f = self.begin(self.name('t'), 'boolean', ['int', 'boolean'])
        e = self.call(self.f_put, [self.var(self.scope[0])])
        self.out(e.s + ';')
        ss = [self.exp(e)]
        self.out('return %s;' % self.scope[1]['name'])
        ss.append(self.nd('ret', a=self.var(self.scope[1]).n))
        self.end(f, ss)
        self.show_ = f
        ga = self.addglob('int', 0, '0')
        gb = self.addglob('boolean', 0, 'false')
        ar = self.addglob('int[]', self.newobj([3, 1, 2, 0]), '{3, 1, 2, 0}')
        self.ga, self.gb, self.ar = ga, gb, ar
        calls = []
        n = tries = 0
        while n < self.N and tries < 3000:
            tries += 1
            k0, l0, f0, o0 = len(self.nodes), len(self.lines), len(self.funcs), len(self.order)
            nb, ni = r.randint(1, 3), r.randint(2, 5)
            pts = ['int'] * ni + ['boolean'] * nb
            f = self.begin(self.name('f'), 'int', pts)
            self.ints = [v for v in self.scope if v['t'] == 'int']
            self.bools_ = [v for v in self.scope if v['t'] == 'boolean']
            kind = r.choice(['val', 'val', 'val', 'sc', 'ass', 'post'])
            self.vis = kind == 'sc'
            ss = []
            if kind in ('val', 'sc'):
                e = self.ptree(r.randint(3, 5), 'boolean' if kind == 'sc' or r.random() < .35 else 'int')
            elif kind == 'ass':
                e = self.asst()
            else:
                e = self.post()
            e2 = e if e.t != 'boolean' else self.op1('ord', e)
            good = []
            for _ in range(12):
                vec = [self.val('int') if r.random() < .5 else r.randint(0, 9) for _ in range(ni)] + \
                      [r.randint(0, 1) for _ in range(nb)]
                self.env = {('prm', i + 1): v for i, v in enumerate(vec)}
                self.env['gl', ga['v']] = self.env['gl', gb['v']] = 0
                try:
                    self.ev(e2.n)
                    good.append(vec)
                except Bad:
                    continue
            if len(good) < 3:
                del self.nodes[k0:], self.lines[l0:], self.funcs[f0:], self.order[o0:]
                self.stamped = k0
                continue
            if e.t == 'boolean' and r.random() < .5:
                x, y = self.nd('ret', a=self.const(1).n), self.nd('ret', a=self.const(0).n)
                self.out('if (%s) return 1; else return 0;' % e.s)
                ss.append(self.nd('if', a=e.n, b=x, c=y))
                self.out('return 0;')
                ss.append(self.nd('ret', a=self.const(0).n))
            else:
                self.out('return %s;' % e2.s)
                ss.append(self.nd('ret', a=e2.n))
            self.end(f, ss)
            n += 1
            for vec in good[:5]:
                calls.append((f, vec, pts))
        m = self.begin('main', 'int', [], True)
        ss = []
        for f, vec, pts in calls:
            e = self.call(self.f_put, [self.call(f, [self.const(v) if t == 'int' else self.bconst(v)
                                                     for t, v in zip(pts, vec)])])
            self.out(e.s + ';')
            ss.append(self.exp(e))
        for g in (ga, gb):
            e = self.var(g)
            e = self.call(self.f_put, [e if e.t == 'int' else self.op1('ord', e)])
            self.out(e.s + ';')
            ss.append(self.exp(e))
        self.out('return 0;')
        ss.append(self.nd('ret', a=self.const(0).n))
        self.end(m, ss)
        self.main = m['no']

    def op2(self, k, a, b, t='int'):
        if k in ('div', 'mod') and b.c == 0:
            k = 'xor'
        return super().op2(k, a, b, t)

    def pleaf(self, t):
        r = self.rnd
        if t == 'boolean':
            v = self.var(r.choice(self.bools_))
            if self.vis:
                self.uid += 1
                return self.call(self.show_, [self.const(self.uid), v])
            return v
        c = r.random()
        if c < .15:
            return self.const(r.choice([0, 1, 2, 3, 5, -1, 7, 256]))
        if c < .25:
            return self.idx(self.var(self.ar), self.op2('and', self.var(r.choice(self.ints)), self.const(3)))
        return self.var(r.choice(self.ints))

    def ptree(self, n, t):
        r = self.rnd
        if n <= 1:
            return self.pleaf(t)
        k = r.choice([n - 1, 1, r.randint(1, n - 1)])
        c = r.random()
        if t == 'boolean':
            if self.vis:
                c *= .7
            if c < .45:
                return self.op2(r.choice(['land', 'lor']), self.ptree(k, t), self.ptree(n - k, t), t)
            if c < .58:
                return self.op1('not', self.ptree(n - 1, t))
            if c < .7:
                a, b = self.ptree(k, t), self.ptree(n - k, t)
                if a.W and b.W:
                    return self.op2('land', a, b, t)
                return self.op2(r.choice(['eq', 'ne']), a, b, t)
            return self.op2(r.choice(CMP), self.ptree(k, 'int'), self.ptree(n - k, 'int'), t)
        if c < .2:
            return self.op1(r.choice(['neg', 'bnot', 'plus']), self.ptree(n - 1, t))
        if c < .25:
            return self.op1('ord', self.ptree(n - 1, 'boolean'))
        return self.op2(r.choice(ARITH), self.ptree(k, t), self.ptree(n - k, t))

    def asst(self):
        """chains of assignments, commas around them"""
        r = self.rnd
        if r.random() < .6:
            e = self.ptree(2, 'int')
            l = [self.var(v) for v in self.ints + [self.ga]]
        else:
            e = self.ptree(3, 'boolean')
            l = [self.var(v) for v in self.bools_ + [self.gb]]
        self.rnd.shuffle(l)
        for x in l[:r.randint(1, 3)]:
            e = self.assign(x, e)
        if e.t == 'int' and r.random() < .5:
            e = self.op2(r.choice(['add', 'mul', 'lt', 'eq']), *r.choice([(e, self.const(3)), (self.const(3), e)]))
            if self.nodes[e.n - 1]['k'] in ('lt', 'eq'):
                e.t = 'boolean'
        if e.t == 'boolean' and r.random() < .6:
            e = self.op2('land', self.ptree(1, 'boolean'), e, 'boolean')
        if r.random() < .4:
            e = self.comma(e, self.var(self.ga))
        return e

    def post(self):
        """prefix operators on elements, calls, conversions"""
        r = self.rnd
        x = self.idx(self.var(self.ar), self.op2('and', self.ptree(2, 'int'), self.const(3)))
        for _ in range(r.randint(1, 3)):
            x = self.op1(r.choice(['neg', 'bnot', 'plus']), x)
        o = r.choice(ARITH + ['lt'])
        a = r.choice([(x, self.ptree(1, 'int')), (self.ptree(1, 'int'), x)])
        return self.op2(o, *a, 'boolean' if o == 'lt' else 'int')

    def ev(self, n):
        d = self.nodes[n - 1]
        k = d['k']
        if k == 'ass':
            v = self.ev(d['b'])
            l = self.nodes[d['a'] - 1]
            self.env[l['k'], l['v']] = v
            return v
        if k == 'call':
            return self.ev(d['args'][1])
        if k == 'idx':
            return [3, 1, 2, 0][self.ev(d['b'])]
        if k in ('land', 'lor'):
            a = self.ev(d['a'])
            if a == int(k == 'lor'):
                return a
            return self.ev(d['b'])
        return super().ev(n)
