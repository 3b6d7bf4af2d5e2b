"""Histories of declarations and uses of names (spec/Names.tla) as programs: the text of any
history, and, for the valid ones, the tree in which every use denotes the declaration the
specification says."""
import gen

TAIL = 'q'


class Names(gen.Gen):
    """h: list of dict(e=event, r=denotation); ok: whether all events are valid.
    line[i]: the line of event i."""

    def __init__(self, pid, rnd, mode, h, ok=True):
        self.h, self.ok = h, ok
        super().__init__(pid, rnd, mode, {'tiny': 1})
        self.spread = 0             # the checks of names count the lines

    def spell(self, v):
        return '%d' % v

    # ---- values ----
    def k(self, t):
        """a fresh constant of base type t"""
        self.kn += 1
        if t == 'char':
            return self.cconst(33 + self.kn % 90)
        if t == 'boolean':
            return self.bconst(self.rnd.randint(0, 1))
        if t in ('int', ''):
            return self.const(200 + self.kn)
        return self.nul(t)

    def nul(self, t):
        return gen.Ex(self.nd('const', v=0), t, 'null', 15, c=0)

    def build(self):
        self.full, self.odd, self.kn, self.gv, self.dcl = 0, 0, 0, [], {}
        self.indent = 0
        self.heapwords = 400
        self.addext()
        self.lim = self.addglob('int', 20, '20')
        self.zc = self.addglob('char', 32, "' '")
        self.line, self.structs, self.fns, self.undef = [], {}, [], {}
        self.f, self.stk = None, []
        for i, x in enumerate(self.h, 1):
            e = x['e']
            self.last = i == len(self.h)
            self.bad = self.last and not self.ok
            getattr(self, 'e_' + e['op'])(i, e, x['r'])
            self.line.append(len(self.lines))
            self.stamp()
        self.nev = len(self.lines)
        while self.f or len(self.stk) > 1:
            (self.e_cl if len(self.stk) > 1 else self.e_en)(0, {}, [0, 0])
        if self.ok:
            for p in list(self.undef.values()):
                self.define(p)
            self.main_()
        else:
            self.out('public int main() { return 0; }')

    # ---- global declarations ----
    def addglob(self, t, val, init):
        n = {'int': 'lim', 'char': 'zc'}[t]
        self.glob.append(val)
        v = dict(k='gl', v=len(self.glob), t=t, name=n)
        self.gv.append(v)
        self.out('%s %s = %s;' % (t, n, init))
        return v

    def ginit(self, t):
        """(text, value) of a fresh initial value"""
        if t in ('int', 'char', 'boolean'):
            e = self.k(t)
            return e.s, e.c
        fs = self.structs.get(t)
        if not fs or self.rnd.random() < .3:
            return 'null', 0
        es = [self.k(f['t']) for f in fs]
        return '{%s}' % ', '.join(e.s for e in es), self.newobj([e.c for e in es])

    def e_gv(self, i, e, r):
        s = ('public ' if e['pub'] else '') + e['t'] + ' ' + e['n']
        val = None
        if e['init']:
            txt, val = self.ginit(e['t'])
            s += ' = ' + txt
        self.out(s + ';')
        if self.bad:
            return
        if r[0]:
            v = self.dcl[r[0], 0]
        else:
            self.glob.append(0)
            v = self.dcl[i, 0] = dict(k='gl', v=len(self.glob), t=e['t'], name=e['n'])
            self.gv.append(v)
        if val is not None:
            self.glob[v['v'] - 1] = val

    def e_st(self, i, e, r):
        self.out('%sstruct %s { %s };' % ('public ' if e['pub'] else '', e['n'], ' '.join('%s %s;' % (p['t'], p['n']) for p in e['ps'])))
        self.structs[e['n']] = self.structs[i] = e['ps']

    def e_op(self, i, e, r):
        self.out('%stypedef %s;' % ('public ' if e['pub'] else '', e['n']))

    def head(self, e, names=None):
        return '%s%s %s(%s)' % ('public ' if e['pub'] else '', e['t'], e['n'],
                                ', '.join('%s %s' % (p['t'], names[j] if names else p['n']) for j, p in enumerate(e['ps'])))

    def fun(self, i, e, r):
        if r[0]:
            return self.dcl[r[0], 0]
        f = dict(no=len(self.funcs) + 1, name=e['n'], t=e['t'], pts=[p['t'] for p in e['ps']], R=set(gen.ALLX), W=set(gen.ALLX),
                 j=dict(ext=0, nl=0, body=0, void=int(e['t'] == 'void'), args=[], rk='v', name=e['n']), e=e)
        self.funcs.append(f)
        self.dcl[i, 0] = f
        self.fns.append(f)
        return f

    def e_pr(self, i, e, r):
        self.out(self.head(e) + ';')
        if not self.bad:
            f = self.fun(i, e, r)
            if not r[0]:
                self.undef[f['no']] = f

    def e_fn(self, i, e, r):
        self.out(self.head(e) + ' { ;')
        self.stk = [[]]
        self.f = dict(no=0, j={}, t=e['t'])
        if self.bad:
            return
        self.f = f = self.fun(i, e, r)
        self.undef.pop(f['no'], None)
        for j, p in enumerate(e['ps'], 1):
            self.dcl[i, j] = dict(k='prm', v=j, t=p['t'], name=p['n'])
        self.fn, self.nslot = f, 0
        self.put(self.const(f['no']))

    def put(self, e):
        c = self.call(self.f_put, [e])
        self.put1(c)

    def put1(self, c):
        """statement c; on the current line"""
        self.lines[-1] += ' ' + c.s + ';'
        self.stk[-1].append(self.exp(c))

    # ---- in functions ----
    def e_en(self, i, e, r):
        f = self.f
        if f['t'] == 'void':
            self.out('}')
        else:
            v = self.k(f['t'])
            self.out('return %s; }' % v.s)
            self.stk[-1].append(self.nd('ret', a=v.n))
        f['j']['body'] = self.nd('blk', args=self.stk.pop())
        self.f = None

    def e_bo(self, i, e, r):
        self.out('{ ;')
        self.stk.append([])

    def e_cl(self, i, e, r):
        self.out('}')
        ss = self.stk.pop()
        t = ss.pop(0) if ss and isinstance(ss[0], tuple) else None
        b = self.nd('blk', args=ss)
        self.stk[-1].append(self.nd('for', i=t[0], a=t[1], r=t[2], b=b) if t else b)

    def newvar(self, t):
        if self.bad:
            return dict(k='loc', v=1, t=t, name='')
        return super().newvar(t)

    def e_lv(self, i, e, r):
        v = self.newvar(e['t'])
        v['name'] = e['n']
        x = self.k(e['t'])
        a = self.assign(self.var(v), x)
        if e['init']:
            self.out('%s %s = %s;' % (e['t'], e['n'], x.s))
        else:
            self.out('%s %s; %s;' % (e['t'], e['n'], a.s))
        self.stk[-1].append(self.exp(a))
        self.dcl[i, 0] = v

    def e_fo(self, i, e, r):
        v = self.newvar('int')
        v['name'] = e['n']
        a = self.assign(self.var(v), self.const(0))
        c = self.op2('lt', self.var(v), self.const(self.rnd.randint(1, 2)), 'boolean')
        inc = self.assign(self.var(v), self.op2('add', self.var(v), self.const(1)))
        self.out('for (int %s; %s; %s) { ;' % (a.s, c.s, inc.s))
        self.stk.append([(self.exp(a), c.n, inc.n)])
        self.dcl[i, 0] = v

    def use(self, e, r):
        if self.bad:
            return gen.Ex(self.nd('const', v=0), e['t'], e['n'], 15)
        v = self.dcl[r[0], r[1]]
        assert v['name'] == e['n'], (v, e)
        return self.var(v)

    def e_us(self, i, e, r):
        x = self.use(e, r)
        self.out(';')
        if e['t'] == 'int':
            self.put(x)
        elif e['t'] == 'char':
            a = self.assign(self.var(self.zc), x)
            self.put1(a)
            self.put(self.var(self.zc))
        else:
            a, b = self.call(self.f_put, [self.k('int')]), self.call(self.f_put, [self.k('int')])
            self.lines[-1] += ' if (%s) %s; else %s;' % (x.s, a.s, b.s)
            self.stk[-1].append(self.nd('if', a=x.n, b=self.exp(a), c=self.exp(b), open=False))

    def e_as(self, i, e, r):
        x = self.use(e, r)
        self.out(';')
        if self.bad:
            self.lines[-1] += ' %s = %s;' % (x.s, self.k(e['t']).s)
        else:
            self.put1(self.assign(x, self.k(e['t'])))

    def e_fd(self, i, e, r):
        x = self.use(e, r)
        self.out(';')
        if self.bad:
            self.lines[-1] += ''.join(' if (%s.%s == %s.%s) ;' % (x.s, g, x.s, g) for g in (e['f'], e['g']))
            return
        v, (at, a, b) = self.dcl[r[0], r[1]], r[2:]
        ps = self.structs[at]
        n = self.nd('sizeof', v=self.size_(ps))
        c = self.call(self.f_newS, [gen.Ex(n, 'int', 'sizeof(%s)' % v['t'], 15, c=self.size_(ps))], u=self.size_(ps), per=len(ps))
        c.t = v['t']
        self.put1(self.assign(x, c))

        def fld(j, f):
            assert ps[j - 1]['n'] == f
            return self.dot(self.var(v), v['t'], j - 1, f, ps[j - 1]['t'])
        for j, f in ((a, e['f']), (b, e['g'])):
            self.put1(self.assign(fld(j, f), self.k(ps[j - 1]['t'])))
        for j, f in ((a, e['f']), (b, e['g'])):
            y = fld(j, f)
            self.put(self.op1('ord', y) if y.t != 'int' else y)

    def size_(self, ps):
        if self.mode == 16:
            return 2 * len(ps)
        off = al = 0
        for p in ps:
            z = {'int': 4, 'char': 1, 'boolean': 1}.get(p['t'], 8)
            al = max(al, z)
            off = -(-off // z) * z + z
        return -(-off // al) * al

    def e_ca(self, i, e, r):
        if self.bad:
            s = '%s(%s)' % (e['n'], ', '.join(self.arg(e, j) for j in range(e['cnt'])))
            self.out('; %s;' % ('put(%s)' % s if e['t'] == 'int' else s))
            return
        self.out(';')
        self.gcall_(self.dcl[r[0], r[1]], e['t'] == 'int')

    def arg(self, e, j):
        # the argument fits the first function of that name, if any
        for f in self.fns:
            if f['name'] == e['n'] and j < len(f['pts']):
                return self.k(f['pts'][j]).s
        return self.k('int').s

    def gcall_(self, f, show):
        """a guarded call on the current line"""
        lim = lambda: self.var(self.lim)
        c = self.op2('gt', lim(), self.const(0), 'boolean')
        d = self.assign(lim(), self.op2('sub', lim(), self.const(1)))
        x = self.call(f, [self.k(t) for t in f['pts']])
        if show:
            x = self.call(self.f_put, [x])
        self.lines[-1] += ' if (%s) { %s; %s; }' % (c.s, d.s, x.s)
        self.stk[-1].append(self.nd('if', a=c.n, b=self.nd('blk', args=[self.exp(d), self.exp(x)]), c=0, open=False))

    # ---- what is missing ----
    def define(self, f):
        self.out(self.head(f['e'], ['q0', 'q1', 'q2']) + ' { ;')
        self.fn, self.f, self.stk, self.nslot = f, f, [[]], 0
        self.put(self.const(f['no']))
        self.e_en(0, {}, [])

    def main_(self):
        f = self.f = self.begin('main', 'int', [], True)
        self.stk = [[]]
        for g in self.fns:
            self.out(';')
            self.gcall_(g, g['t'] in ('int', 'char'))
        for v in self.gv:
            if v['t'] in ('int', 'char', 'boolean'):
                self.out(';')
                x = self.var(v)
                self.put(x if v['t'] != 'boolean' else self.op1('ord', x))
        z = self.const(0)
        self.out('return 0;')
        ss = self.stk.pop()
        ss.append(self.nd('ret', a=z.n))
        self.f = None
        self.end(f, ss)
        self.main = f['no']
