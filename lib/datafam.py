"""Programs that declare variables as the shapes of spec/Data.tla say, show everything they hold,
change every cell, and show everything again."""
import gen
from gen import Ex, REF

FIELDS = {'S1': [('int', 0), ('char', 0), ('S1', 0), ('char', 1), ('boolean', 0), ('int', 1)],
          'S2': [('char', 0)],
          'S3': [('boolean', 2), ('S2', 0), ('char', 1), ('int', 0), ('S1', 1)]}


class Data(gen.Gen):
    def __init__(self, pid, rnd, mode, shapes, commons=True, addr=False):
        self.shapes, self.commons, self.addr = shapes, commons, addr
        super().__init__(pid, rnd, mode, {'tiny': 1})

    # ---- text of an initialiser, with the values of its constants ----
    def leaf(self, t):
        r = self.rnd
        if t == 'int':
            v = self.rint()
            s = self.cinit(v)
            if r.random() < .1:
                v, s = r.choice([(4 if self.mode == 32 else 2, 'sizeof(int)'), (1, 'sizeof(char)')])
        elif t == 'char':
            v = self.rchar()
            s = "'%s'" % self.spellc(v, "'")
            if r.random() < .15:
                s = 'chr(%d)' % v
        else:
            v = r.randint(0, 1)
            s = r.choice([['false', '1 > 2', '!true', 'false && true', 'bool(0)', '3 != 3'],
                          ['true', '1 < 2', '!false', 'false || true', 'bool(1)', "'a' == 'a'"]][v])
        self.leaves.append(v)
        return s

    def text(self, t, x, ch=None):
        k = x['k']
        if k == 'const':
            return self.leaf(t[0])
        if k == 'null':
            return 'null'
        if k == 'str':
            cs = [self.rnd.randint(32, 126) if self.rnd.random() < .7 else self.rnd.randint(1, 255) for _ in range(x['n'][0])]
            self.leaves += cs
            return self.spells(cs)
        if k == 'array':
            return 'array(%s)' % ', '.join(self.rnd.choice(['%d' % n, '%d' % n, '%d + %d' % (n - 1, 1), '0x%x' % n]) for n in x['n'])
        sep = self.rnd.choice([', ', ',', ',\n   '])
        if k == 'list':
            return '{%s}' % sep.join(self.text([t[0], t[1] - 1], y) for y in x['sub'])
        return '{%s}' % sep.join(self.text(f, y) for f, y in zip(FIELDS[t[0]], x['sub']))

    def value(self, c, base):
        if c[0] == 'c':
            return self.leaves[c[1]]
        return 0 if c[0] == 'z' else base + c[1]

    # ---- the program ----
    def build(self):
        r = self.rnd
        self.gv = []
        self.addext()
        self.heapwords = 100
        for n in ('S1', 'S2', 'S3'):
            self.order.append((n, len(FIELDS[n])))
            self.out('struct %s {' % n)
            for i, (b, d) in enumerate(FIELDS[n]):
                self.out('  %s%s %s;' % (b, '[]' * d, 'abcdefg'[i]))
            self.out('};')
        vs, odd, again = [], [], []
        pend = []

        def flush():
            if pend:
                pub = r.choice(['', 'public '])
                t = pend[0][1]
                for v, _, s in pend:
                    self.order.append((('_' if pub else '.') + v['name'], 0))
                self.out('%s%s %s;' % (pub, t, ', '.join(v['name'] + ('' if s is None else ' = ' + s) for v, _, s in pend)))
                for v, _, s in pend:
                    if self.commons and r.random() < .15:
                        again.append('%s%s %s;' % (pub, t, v['name']))
                pend.clear()
        for sh in self.shapes:
            t, x = sh['t'], sh['x']
            tt = t[0] + '[]' * t[1]
            self.leaves = []
            # texts in the order the constants are numbered
            s = None if x['k'] == 'none' else self.text(t, x)
            nm = self.name('g')
            base = REF + len(self.objs)
            for o in sh['m']:
                self.objs.append([self.value(c, base) for c in o['c']])
            self.glob.append(self.value(sh['v'], base))
            v = dict(k='gl', v=len(self.glob), t=tt, name=nm, sh=sh)
            if pend and (pend[0][1] != tt or r.random() < .3):
                flush()
            if self.commons and s is not None and not pend and r.random() < .1:
                pub = r.choice(['', 'public '])
                self.order.append((('_' if pub else '.') + nm, 0))
                self.out('%s%s %s;' % (pub, tt, nm))
                self.out('%s%s %s = %s;' % (pub, tt, nm, s))
            else:
                pend.append((v, tt, s))
            vs.append(v)
            if r.random() < .1:         # a function in between, with strings of its own
                flush()
                self.between(odd)
        flush()
        for l in again:
            self.out(l)
        ad = []
        if self.addr:
            g = self.between(odd)
            for i in range(2):
                nm = self.name('g')
                what = r.choice([g['name']] + [v['name'] for v in vs if v['sh']['v'][0] != 'r' or True])
                self.order.append(('.' + nm, 0))
                self.out('int %s = addrof(%s);' % (nm, what))
                self.glob.append(0)
                ad.append((nm, what))
        # main
        self.scope = []
        f = self.begin('main', 'int', [], True)
        ss = []
        for nm, what in ad:
            e = Ex(self.nd('const', v=1), 'boolean', '%s == addrof(%s)' % (nm, what), 9)
            self.show(self.op1('ord', e), ss)
        for g in odd:
            self.show(self.call(g, []), ss)
        cells = []
        for v in vs:
            self.reach(v['sh'], lambda v=v: self.var(v), v['sh']['t'], v['sh']['v'], cells, (v['v'],))
        # what is read, all or (of large ones) a part
        if len(cells) > 60:
            keep = set(r.sample(range(len(cells)), 60))
            cells = [c for i, c in enumerate(cells) if i in keep]
        for c in cells:
            self.look(c, ss)
        n = r.randint(0, 50)
        wr = [c for c in cells if not c['ref'] and not (c['ro'] and self.mode == 32)]
        r.shuffle(wr)
        for c in wr:
            n += r.randint(1, 3)
            k = {'int': lambda: self.const(300 + n), 'char': lambda: self.cconst((n * 7) % 256), 'boolean': lambda: self.bconst(n & 1)}[c['t']]()
            e = self.assign(c['e'](), k)
            self.out(e.s + ';')
            ss.append(self.exp(e))
        # and references: some become null
        dead = []

        def gone(p):
            return any(len(p) > len(d) and p[:len(d)] == d for d in dead)
        for c in [c for c in cells if c['ref'] and c['ch']]:
            if r.random() < .15 and not gone(c['path']):
                e = self.assign(c['e'](), self.nul())
                dead.append(c['path'])
                self.out(e.s + ';')
                ss.append(self.exp(e))
        for c in cells:
            if not gone(c['path']):
                self.look(c, ss)
        self.out('return 0;')
        ss.append(self.nd('ret', a=self.const(0).n))
        self.end(f, ss)
        self.main = f['no']

    def nul(self):
        return Ex(self.nd('const', v=0), 'void[]', 'null', 15)

    def par(self, e, need):
        return '(' + e.s + ')' if e.p < need else e.s

    def between(self, odd):
        r = self.rnd
        g = self.begin(self.name('f'), 'int', [], r.random() < .5)
        ss = []
        cs = [r.randint(32, 126) for _ in range(r.randint(0, 4))]
        n = self.nd('str', v=self.newobj(cs + [0]) - REF)
        e = self.call(self.f_putS, [Ex(n, 'char[]', self.spells(cs), 15)])
        self.out(e.s + ';')
        ss.append(self.exp(e))
        k = self.rint()
        self.out('return %d;' % k)
        ss.append(self.nd('ret', a=self.const(k).n))
        self.end(g, ss)
        odd.append(g)
        return g

    def show(self, e, ss):
        e = self.call(self.f_put, [e])
        self.out(e.s + ';')
        ss.append(self.exp(e))

    def look(self, c, ss):
        e = c['e']()
        if c['ref']:
            self.show(self.op1('ord', self.op2(self.rnd.choice(['eq', 'ne']), e, self.nul(), 'boolean')), ss)
        elif c['t'] == 'boolean':
            self.show(self.op1('ord', e), ss)
        else:
            self.show(e, ss)

    def reach(self, sh, mk, t, val, cells, path, ro=False):
        """the places that can be reached from a place of type t holding val"""
        r = self.rnd
        ref = t[1] > 0 or t[0] in FIELDS
        c = dict(e=mk, ref=ref, t=t[0], ro=ro, path=path, ch=val[0] == 'r')
        cells.append(c)
        if val[0] != 'r':
            return
        o = sh['m'][val[1] - 1]
        n = len(o['c'])
        pick = range(n) if n <= 6 else sorted({0, 1, n - 1, r.randrange(n), r.randrange(n)})
        for i in pick:
            if t[1] > 0:
                et = [t[0], t[1] - 1]
                m = lambda i=i: self.idx(mk(), self.const(i))
            else:
                et = list(FIELDS[t[0]][i])
                m = lambda i=i: self.dot(mk(), t[0], i, 'abcdefg'[i], et[0] + '[]' * et[1])
            self.reach(sh, m, et, o['c'][i], cells, path + (i,), len(o['t']) > 2)
