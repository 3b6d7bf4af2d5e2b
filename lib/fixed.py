"""Fixed programs that show the findings recorded in known-findings.txt."""
import gen


class Fixed(gen.Gen):
    def __init__(self, pid, rnd, mode, name):
        self.name_ = name
        super().__init__(pid, rnd, mode, {'tiny': 1})

    def build(self):
        self.full, self.odd, self.gv = 1, 0, []
        self.addext()
        f = self.begin('main', 'int', [], True)
        ss = getattr(self, 'p_' + self.name_)()
        self.out('return 0;')
        ss.append(self.nd('ret', a=self.const(0).n))
        self.end(f, ss)
        self.main = f['no']

    def spell(self, v):
        return '%d' % v

    def local(self, v, ss):
        w = self.newvar('int')
        e = self.assign(self.var(w), self.const(v))
        self.out('int %s;' % w['name'])
        self.out(e.s + ';')
        ss.append(self.exp(e))
        return w

    def show(self, e, ss):
        e = self.call(self.f_put, [self.op1('ord', e) if e.t == 'boolean' else e])
        self.out(e.s + ';')
        ss.append(self.exp(e))

    def p_sizeofneg(self):
        """-1 < sizeof(int)"""
        ss = []
        v = self.local(-1, ss)
        s = gen.Ex(self.nd('sizeof', v=4), 'int', 'sizeof(int)', 15)
        self.show(self.op2('lt', self.var(v), s, 'boolean'), ss)
        return ss

    def p_addoverflow(self):
        """32767 + 1 < 0"""
        ss = []
        v, w = self.local(32767, ss), self.local(1, ss)
        x = self.op2('add', self.var(v), self.var(w))
        e = self.op2('lt', x, self.const(0), 'boolean')
        self.nodes[x.n - 1]['f'] = 0
        self.show(e, ss)
        return ss


def specs(mode, *names):
    return [dict(fam='fixed', seed=0, i=i, mode=mode, name=n, key='fixed/' + n, opts=[])
            for i, n in enumerate(names)]
