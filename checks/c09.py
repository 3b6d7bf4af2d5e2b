"""Type rules: the cases of spec/Types.tla with their verdicts, replayed into every translator."""
import random
import cases

VARS = dict(vi='int', vc='char', vb='boolean', vs='S', vp='P', vo='O', via='int[]', vca='char[]', vba='boolean[]',
            vsa='S[]', vpa='P[]', voa='O[]', vva='void[]', viaa='int[][]', vcaa='char[][]', vvaa='void[][]',
            vsaa='S[][]', viaaa='int[][][]')
CALLS = dict(fi='int', fc='char', fb='boolean', fv='void', fs='S', fo='O', fia='int[]', fca='char[]', fva='void[]',
             fsa='S[]', fiaa='int[][]')
HEAD = ['struct P { int x; char y; boolean z; };', 'typedef O;',
        'struct S { int i; char c; boolean b; S n; P p; O o; int[] ia; char[] ca; S[] sa; void[] va; int[][] iaa; };']
GLOB = ['%s %s;' % (t, v) for v, t in VARS.items()]
FUN = ['%s %s();' % (t, f) for f, t in CALLS.items()] + ['void var(int n, ...);']
LOC = ' '.join(GLOB)
PRM = ', '.join('%s %s' % (t, v) for v, t in VARS.items())


def place(k, n, where):
    """(declarations before, the line of case k) with names numbered n"""
    e, t, x = k['s'], k['ty'], k['ctx']
    pre = []
    ret = 'void'
    body = {'stmt': '%s;', 'if': 'if (%s) ;', 'while': 'while (%s) ;', 'do': 'do ; while (%s);', 'forc': 'for (; %s; ) ;',
            'fori': 'for (%s; true; ) ;', 'foru': 'for (; true; %s) ;', 'vararg': 'var(1, %s);'}.get(x)
    if body:
        body %= e
    elif x == 'ret':
        ret, body = t, 'return %s;' % e
    elif x == 'arg':
        pre, body = ['void a%d(%s p);' % (n, t)], 'a%d(%s);' % (n, e)
    elif x == 'init':
        body = '%s x = %s;' % (t, e)
    elif x == 'ldecl':
        body = '%s x;' % t
    elif x == 'sizeof':
        body = 'vi = sizeof(%s);' % t
    else:
        return pre, {'ginit': '%s x%d = %s;' % (t, n, e), 'gdecl': '%s x%d;' % (t, n), 'fdecl': '%s t%d();' % (t, n),
                     'prm': 'void t%d(%s p) { }' % (n, t), 'pprm': 'void t%d(%s p);' % (n, t),
                     'fld': 'struct Q%d { %s f; };' % (n, t)}[x]
    if where and ('addrof' in e or x in ('init',)):
        where = 0
    if where == 1:
        return pre, '%s t%d(%s) { %s }' % (ret, n, PRM, body)
    if where == 2:
        return pre, '%s t%d() { %s %s }' % (ret, n, LOC, body)
    return pre, '%s t%d() { %s }' % (ret, n, body)


def program(ks, where):
    pre, lines = [], []
    for n, k in enumerate(ks):
        p, l = place(k, n, where)
        pre += p
        lines.append(l)
    head = HEAD + GLOB + FUN + pre
    return '\n'.join(head + lines) + '\n', len(head) + 1


def check(c):
    r = random.Random('c09/%d' % c.seed)
    ks = cases.enumerate_(c, 'Types')
    c.sample('%d cases, for instance %s' % (len(ks), ks[:2]))
    b = c.built()
    good = [k for k in ks if k['ok']]
    bad = [k for k in ks if not k['ok']]
    r.shuffle(good)
    r.shuffle(bad)
    bad = bad[:c.q(36000, len(bad))]
    pairs = [(t, h) for t in cases.TR for h in b.hosts()]
    # ill-typed ones: each alone, at its line
    jobs, info = [], {}
    for i, k in enumerate(bad):
        src, line = program([k], i % 3 if k['ctx'] not in ('arg',) else 0)
        use = c.q([pairs[i % len(pairs)]], pairs)
        for t, h in use:
            key = (i, t, h)
            info[key] = (k, src, line)
            jobs.append((key, [b.tool(t, h)] + r.choice([[], ['-O0'], ['-O1']]), src, False))
    n = len(jobs)
    for key, rc, _, err in cases.run_many(jobs):
        k, src, line = info[key]
        at = cases.err_at(err)
        what = None
        if rc == 0:
            what = 'accepts an ill-typed program'
        elif rc < 0 or rc > 100 or not at:
            what = 'ends with status %d, %r on an ill-typed program' % (rc, err[:200])
        elif at[1] != line:
            what = 'names line %d instead of line %d (%s)' % (at[1], line, at[2])
        if what:
            c.violation('%s/%s/%s' % (k['ctx'], k['ty'], k['s']), '%s (%s) %s: %s %s, line %d: %s' % (
                key[1], key[2], what, k['ctx'], k['ty'], line, src.split('\n')[line - 1]), {'program.cmm': src})
    # well-typed ones: many to a program
    jobs, info = [], {}
    for i in range(0, len(good), 15):
        part = good[i:i + 15]
        w = (i // 15) % 3
        src, line = program(part, w)
        use = pairs if c.tier != 'quick' else r.sample(pairs, 4)
        for t, h in use:
            info[i, t, h] = (part, src, line, w)
            jobs.append(((i, t, h), [b.tool(t, h)] + r.choice([[], ['-O0'], ['-O1']]), src, False))
    n += len(jobs)
    for key, rc, _, err in cases.run_many(jobs):
        part, src, line, w = info[key]
        if rc == 0 and not err:
            continue
        at = cases.err_at(err)
        m = (at[1] - line) if at else -1
        k = part[m] if 0 <= m < len(part) else None
        c.violation('%s/%s/%s' % (k['ctx'], k['ty'], k['s']) if k else 'accept/%s/%d' % (key[1], key[0]),
                    '%s (%s) rejects a well-typed program (status %d): %s%s' % (
                        key[1], key[2], rc, err[:300], k and '\n%s' % src.split('\n')[at[1] - 1] or ''), {'program.cmm': src})
    c.add(traces_validated_against_impl=n, cases=len(ks), accepted=len(good), rejected=len(bad))
    return 'model_checking'
