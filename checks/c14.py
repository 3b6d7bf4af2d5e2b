"""Tokens are read as documented: texts over the characters that matter, with the value the scanner
machine spec/Lex.tla gives them, replayed into the translators as initial values and names."""
import json, os, random, re
import concurrent.futures as cf
import asm, cases, tlc, vmasm

GROUPS = ('bl', 'op', 'num', 'str', 'chr', 'word', 'long', 'len', 'kw', 'raw', 'rawt')
BATCH = 60


def texts(c, depth):
    """[(group, text, meaning)]"""
    def one(g):
        rc, out = tlc.run('Lex', os.path.join(c.work, 'lex-' + g), env={'GROUP': g, 'DEPTH': str(depth.get(g, 4))}, timeout=800,
                          heap='4g')
        if rc:
            raise RuntimeError('TLC failed on Lex %s: %s' % (g, out[-3000:]))
        res = []
        for m in re.finditer(r'^"(\{.*\})"$', out, re.M):
            d = json.loads(m.group(1).replace('\\"', '"'))
            res.append((g, bytes(d['x']), d['r']))
        return res, tlc.stats(out)
    all_ = []
    with cf.ThreadPoolExecutor(8) as ex:
        for res, st in ex.map(one, GROUPS):
            c.add(states=st[1], transitions=st[0])
            all_ += res
    return all_


def decl(g, x, r, name, k):
    """the declaration with text x"""
    if g == 'rawt':
        return x + b' ' + name + b' = %d;' % k
    if g in ('word', 'kw') or g == 'len' and x[:1] != b'"':
        return b'int ' + x + b' = %d;' % k
    t = r['t']
    if t in ('rej', 'unspec', 'name'):
        t = {'str': 'char[]', 'len': 'char[]', 'chr': 'char'}.get(g, ('int', 'boolean')[k % 2])
    return t.encode() + b' ' + name + b' = ' + x + b';'


def valid(g, x, r):
    if r['t'] == 'unspec':
        return None
    if g == 'rawt':
        return False if r['t'] == 'rej' else None
    if g in ('word', 'kw') or g == 'len' and x[:1] != b'"':
        return r['t'] == 'name'
    if g == 'chr':
        return r['t'] == 'char'
    if g in ('num', 'long'):
        return r['t'] == 'int'
    return r['t'] in ('int', 'boolean', 'char', 'char[]')


def values(tool, out, names):
    """name -> value (int or list of bytes) in the output of a translator"""
    res = {}
    if tool in ('c-c--', 'rtc-c--'):
        st = {}
        for m in re.finditer(r'^#define (_cmm_\d+S) "(.*)"$', out, re.M):
            st[m.group(1)] = asm.unescape(m.group(2))
        # checked strings are structures
        for m in re.finditer(r'^static _CA (_cmm_\d+S)=\{(\d+),\{"(.*)"\}\};$', out, re.M):
            e = asm.unescape(m.group(3))
            st[m.group(1)] = e if len(e) + 1 == int(m.group(2)) else (m.group(2), e)
        for m in re.finditer(r'^static \w+ \*?(\w+)=(.*);$', out, re.M):
            v = m.group(2).lstrip('(&').rstrip(')')
            v = re.sub(r'^\w+ ?\*\)\s*&?', '', v)
            res[m.group(1)] = int(v) if re.fullmatch(r'-?\d+', v) else st.get(v, v)
        return res
    if tool == 'ic-c--':
        out = vmasm.ic_to_vm(out, {i: '.' + n for i, n in enumerate(names)})
    labs, cur = {}, []
    for l in out.split('\n'):
        p = l.split('\t', 2)
        if p[0]:
            cur.append(p[0])
        if len(p) > 1:
            for n in cur:
                labs[n] = (p[1], p[2] if len(p) > 2 else '')
            cur = []
    for n in names:
        op, a = labs.get('.' + n, ('', ''))
        if op == 'DW' and re.fullmatch(r'-?\d+', a):
            res[n] = int(a)
        elif op == 'DW' and labs.get(a, ('',))[0] == 'STRING':
            res[n] = asm.unescape(labs[a][1][1:-1])
        else:
            res[n] = (op, a)
    return res


def same(tool, g, r, k, got):
    if r['t'] == 'char[]':
        return got == r['s']
    if not isinstance(got, int):
        return False
    if r['t'] == 'name':
        return got == k
    if g in ('num', 'long') and tool in ('c-c--', 'rtc-c--'):
        return got == r['v'] % 65536
    return (got - r['v']) % 65536 == 0


def check(c):
    r = random.Random('c14/%d' % c.seed)
    ts = texts(c, c.q({}, dict(bl=5, op=4, num=5, str=5, chr=5, word=6)))
    b = c.built()
    pairs = [(t, h) for t in cases.TR for h in b.hosts()]
    good = [t for t in ts if valid(*t)]
    bad = [t for t in ts if valid(*t) is False]
    r.shuffle(bad)
    r.shuffle(good)
    jobs, info = [], {}
    for i, (g, x, m) in enumerate(bad):
        src = decl(g, x, m, b'v', i) + b'\n'
        t, h = pairs[i % len(pairs)]
        info['r', i] = g, x, m, src, t, h
        jobs.append((('r', i), [b.tool(t, h)], src, False))
    # the valid ones together
    for j in range(0, len(good), BATCH):
        ns, src = [], b''
        for k, (g, x, m) in enumerate(good[j:j + BATCH]):
            n = b'zz%d' % k
            src += decl(g, x, m, n, k) + b'\n'
            ns.append((m['t'] == 'name' and x or n).decode('latin-1'))
        for t, h in pairs:
            info['a', j, t, h] = ns, src
            jobs.append((('a', j, t, h), [b.tool(t, h)] + ([] if t in ('c-c--', 'rtc-c--') else r.choice([[], ['-O0']])), src, True))
    again = []
    nval = 0
    for key, rc, out, err in cases.run_many(jobs):
        if key[0] == 'r':
            g, x, m, src, t, h = info[key]
            what = None
            if rc == 0:
                what = 'accepts'
            elif rc < 0 or rc > 100 or not cases.err_at(err):
                what = 'ends with status %d, %r on' % (rc, err[:200])
            if what:
                c.violation('rej/%r' % x, '%s (%s) %s %r' % (t, h, what, src.decode('latin-1')), {'program.cmm': src})
            continue
        _, j, t, h = key
        ns, src = info[key]
        if rc or err:
            again.append((j, t, h))
            continue
        vs = values(t, out, ns)
        for k, (g, x, m) in enumerate(good[j:j + BATCH]):
            nval += 1
            if not same(t, g, m, k, vs.get(ns[k])):
                one = decl(g, x, m, b'zz', k)
                c.violation('val/%r' % x, '%s (%s): %r is %r instead of %r' % (
                    t, h, one.decode('latin-1'), vs.get(ns[k]), m['s'] if m['t'] == 'char[]' else k if m['t'] == 'name' else m['v']),
                    {'program.cmm': src, 'output.txt': out})
    # which of a rejected batch is it
    for j, t, h in again[:20]:
        hit = 0
        for k, (g, x, m) in enumerate(good[j:j + BATCH]):
            src = decl(g, x, m, b'zz', k) + b'\n'
            _, rc, out, err = cases.one_run((0, [b.tool(t, h)], src, True))
            if rc or err:
                hit = 1
                c.violation('acc/%r' % x, '%s (%s) rejects %r (%d, %s)' % (t, h, src.decode('latin-1'), rc, err.strip()[:200]),
                            {'program.cmm': src})
        if not hit:
            c.violation('batch/%d' % j, '%s (%s) rejects valid declarations that it accepts one by one' % (t, h),
                        {'program.cmm': info['a', j, t, h][1]})
    c.sample('%d texts, for instance %s' % (len(ts), [t[1].decode('latin-1') for t in good[:5] + bad[:5]]))
    c.add(traces_validated_against_impl=len(bad) + nval, accepted=len(good), rejected=len(bad),
          unspecified=len(ts) - len(good) - len(bad))
    return 'model_checking'
