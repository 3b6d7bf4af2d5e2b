"""Programs split into units as spec/Units.tla says, compiled one by one, linked, and run against the machine of the whole program."""
import json, os, random, re, shutil, subprocess
import asm, ctrace, fam, prod, tlc, vmasm

TOK = re.compile(r'''/\*.*?\*/|//[^\n]*|"(?:\\.|[^"\\])*"|'(?:\\.|[^'\\])*'|[A-Za-z_]\w*|0[xX][0-9a-fA-F]+|\d+|\s+|.''', re.S)
KEY = set('public int char boolean void struct typedef array if else for while do return break continue true false null sizeof ord chr bool addrof interrupt'.split())


def chunks(src):
    """the declarations of a program: dict(kind, name, toks, line, uses names)"""
    res, cur, depth, line, at, seen = [], [], 0, 1, None, ''
    for m in TOK.finditer(src):
        t = m.group(0)
        if not cur and (t.isspace() or t.startswith('/*') or t.startswith('//')):
            line += t.count('\n')
            continue
        if not cur:
            at = line
        cur.append(t)
        line += t.count('\n')
        if t in '({[':
            depth += 1
        elif t in ')}]':
            depth -= 1
        top = [x for x in cur if not x.isspace()]
        if depth == 0 and (t == ';' or t == '}' and '=' not in top[:top.index('{')] and top[0] != 'struct'):
            res.append(dict(toks=cur, line=at, top=top))
            cur = []
    for c in res:
        top = [x for x in c['top'] if x != 'public']
        if top[0] in ('struct', 'typedef') and top[2] in '{;':
            c.update(kind='type', name=top[1])
            continue
        k = next(i for i, x in enumerate(top) if x in '(=;')
        c.update(kind='var' if top[k] != '(' else 'fun' if c['top'][-1] == '}' else 'proto', name=top[k - 1], init=top[k] == '=')
    return res


class Split:
    """the items of a program"""
    def __init__(self, g):
        self.g = g
        g.spread = 0
        cs = chunks(g.source())
        funs = {c['name'] for c in cs if c['kind'] == 'fun'}
        self.types = [c for c in cs if c['kind'] == 'type']
        self.items = [c for c in cs if c['kind'] in ('fun', 'var') or c['kind'] == 'proto' and c['name'] not in funs]
        self.no = {c['name']: i + 1 for i, c in enumerate(self.items)}
        assert len(self.no) == len(self.items), 'repeated'
        for c in self.items:
            c['uses'] = sorted({self.no[n] for k, n in self.idents(c) if n in self.no} - {self.no[c['name']]})

    @staticmethod
    def idents(c):
        """positions of identifiers that are not fields"""
        prev = ''
        for k, t in enumerate(c['toks']):
            if re.match(r'[A-Za-z_]', t) and t not in KEY and prev != '.':
                yield k, t
            if not t.isspace() and not t.startswith('/*'):
                prev = t

    def shape(self):
        return [dict(k={'fun': 'f', 'var': 'v', 'proto': 'x'}[c['kind']], init=int(c.get('init', False)), uses=c['uses'], main=c['name'] in ('main', '__main')) for c in self.items]

    def hidden(self, plan):
        """the private item that another unit uses"""
        for j, c in enumerate(self.items):
            for i in c['uses']:
                if not plan['pub'][i - 1] and plan['at'][i - 1] != plan['at'][j]:
                    return i

    def text(self, plan, u, fname):
        """the source of unit u (0..)"""
        new = {c['name']: self.items[plan['sp'][i] - 1]['name'] for i, c in enumerate(self.items)}
        out = []
        for c in self.types:
            out.append('# %d "%s"\n%s' % (c['line'], fname, ''.join(c['toks'])))
        for d in plan['units'][u]:
            c = self.items[d['i'] - 1]
            toks = list(c['toks'])
            for k, t in self.idents(c):
                if t in new:
                    toks[k] = new[t]
            if toks[0] == 'public':
                toks = toks[2:]
            if not d['def'] and c['kind'] != 'proto':
                k = toks.index('{') if c['kind'] == 'fun' else next(k for k, t in enumerate(toks) if t in '=;')
                toks = toks[:k] + [';']
            pub = plan['pub'][d['i'] - 1] or c['kind'] == 'proto' or plan['v'] == 'unresolved' and plan['at'][d['i'] - 1] != u + 1
            out.append('# %d "%s"\n%s%s' % (c['line'], fname, 'public ' if pub else '', ''.join(toks)))
        return '\n'.join(out) + '\n'


def plans(c, shapes, num, part):
    """ways to split the programs, from TLC"""
    work = os.path.join(c.work, 'plans%d' % part)
    os.makedirs(work)
    f = os.path.join(work, 'shapes.json')
    json.dump(shapes, open(f, 'w'))
    rc, out = tlc.run('Units', work, {'SHAPES': f}, timeout=800, extra=('-simulate', 'num=%d' % num, '-depth', '400', '-seed', str(c.seed * 100 + part)))
    if rc:
        raise RuntimeError('TLC failed on Units: %s' % out[-3000:])
    m = re.search(r'(\d+) states checked', out)
    c.add(states=int(m.group(1)) if m else 0)
    res = {}
    for m in re.finditer(r'^"(\{.*\})"$', out, re.M):
        s = m.group(1).replace('\\"', '"')
        h = json.loads(s)
        res.setdefault((h['p'], json.dumps([h['units'], h['sp'], h['pub'], h['v']])), h)
    return list(res.values())


def vmlink(texts):
    res = []
    for i, t in enumerate(texts):
        ls = []
        for l in t.split('\n'):
            if '"' not in l:
                l = re.sub(r'(^|[\t,])\.', lambda m: '%s.%d' % (m.group(1), i), l)
            ls.append(l)
        res.append('\n'.join(ls))
    return '\n'.join(res)


def clink(built, g, texts, rtc, work, fname):
    """None, or what the C compiler says"""
    os.makedirs(work, exist_ok=True)
    lib = os.path.join(built.tree, 'lib', 'SrcC')
    fl = ctrace.CFLAGS + (['-D_RTC'] if rtc else []) + ['-I' + lib, '-I' + built.include, '-include', 'wrapper.h']
    objs = []
    st = ctrace.stub(g, rtc)
    for i, t in enumerate(texts + [st[0] + st[1]]):
        pc = os.path.join(work, 'u%d.c' % i)
        open(pc, 'w', encoding='latin-1').write(t)
        p = subprocess.run(['gcc', *fl, '-c', '-o', pc[:-1] + 'o', pc], cwd=work, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=60)
        if p.returncode:
            return 'cc: ' + p.stdout.decode('utf-8', 'replace')[:800]
        objs.append(pc[:-1] + 'o')
    p = subprocess.run(['gcc', '-o', os.path.join(work, 'x'), *objs], cwd=work, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=60)
    if p.returncode:
        return 'link: ' + p.stdout.decode('utf-8', 'replace')[:800]


def shard(args):
    kind, built, specs, work, budget = args
    os.makedirs(work, exist_ok=True)
    tool = prod.TOOL[kind]
    progs, meta = [], {}
    res = dict(n=0, traces=0, compiled=0, ok=0, faults=0, unspec={}, bad=[], states=0, events=0, err=None, sample=None)
    for sp in specs:
        if len(res['bad']) >= 4:
            break
        g = fam.make(sp)
        s = Split(g)
        plan = sp['plan']
        r = random.Random(json.dumps(plan))
        res['n'] += 1
        fname = 'p%d.cmm' % (sp['i'] % 7)
        srcs = [s.text(plan, u, fname) for u in range(len(plan['units']))]
        outs, host, fail = [], '', None
        krn = r.random() < 0.3
        for src in srcs:
            h = r.choice(built.hosts())
            o = list(r.choice(prod.K if krn else prod.OPTS))
            host += ' %s %s,' % (h, ' '.join(o))
            if kind == 'rtc':
                open(os.path.join(work, 'in.cmm'), 'w').write(src)
                o.append('in.cmm')
            rc, out, err = built.compile(tool, src, o, h, cwd=work)
            if rc or err:
                fail = '%s: exit status %d on a valid unit: %s' % (tool, rc, err[:500])
            res['compiled'] += 1
            outs.append(out)
        outs = [outs[k - 1] for k in plan['order']]
        if plan['v'] == 'unresolved':       # the use itself may have been removed as dead code
            n = s.items[plan['sp'][s.hidden(plan) - 1] - 1]['name']
            outs.append('void %s();\nvoid *zz_=(void *)%s;\n' % (n, n) if kind in ('c', 'rtc') else 'zz_%s\tDW\t_%s\n' % ('\n' if kind == 'vm' else '', n))
        b = dict(sp=sp, host=host, src='\n/*---- next unit ----*/\n'.join(srcs) + '\n/*---- whole\n' + g.source() + '*/\n', out='\n;;;;\n'.join(outs))
        if fail:
            res['bad'].append(dict(b, why=fail))
            continue
        j = prod.prog_json(kind, g)
        j['chk'] = int(not krn)
        js, why = [], None
        inputs = getattr(g, 'runs', None) or [g.inp]
        ext = {'_' + f['name']: f['no'] for f in g.funcs if f['j']['ext']}
        try:
            if kind in ('c', 'rtc'):
                w = os.path.join(work, 'c')
                why = clink(built, g, outs, kind == 'rtc', w, fname)
                if not why and plan['v'] == 'ok':
                    for inp in inputs:
                        tr, fault = ctrace.once(os.path.join(w, 'x'), kind == 'rtc', w, fname, inp)
                        js.append(dict(j, inp=inp, trace=tr, fault=fault, rtc=int(kind == 'rtc')))
                    res['traces'] += len(js)
                shutil.rmtree(w, ignore_errors=True)
                link = why and why.startswith('link')
            elif kind == 'tac':
                link = True
                a = asm.Asm()
                for t in outs:
                    a.add(t, 'unit')
                im = a.image(dict(ext, __stkChk=0), heapwords=g.heapwords)
                im['entry'] = a.sym['_main'][1]
                js = [dict(j, inp=inp, tac=im) for inp in inputs]
            else:
                link = True
                im = vmasm.image(vmlink(outs), ext)
                js = [dict(j, inp=inp, tac=im) for inp in inputs]
        except (asm.AsmError, vmasm.VmError) as e:
            why = str(e)
        if plan['v'] == 'ok':
            if why:
                res['bad'].append(dict(b, why='the units do not link: ' + why))
                continue
        else:
            if not why or not link:
                res['bad'].append(dict(b, why='%s: the units link although a name is %s%s' % (tool, plan['v'], why and ', ' + why or '')))
            else:
                res['refused'] = res.get('refused', 0) + 1
            continue
        for j in js:
            j['id'] = len(progs) + 1
            meta[j['id']] = (sp, host, b['src'], b['out'])
            progs.append(j)
    if progs:
        prod.run(prod.MODULE[kind], progs, meta, res, work, budget)
    if not res['sample'] and meta:
        res['sample'] = meta[next(iter(meta))][2]
    shutil.rmtree(work, ignore_errors=True)
    return res
