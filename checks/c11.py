"""Declarations and statements are accepted exactly where the grammar allows them: the configurations
of the pushdown machine spec/Syntax.tla, with what may and may not follow, replayed into the translators;
and where accepted jumps go."""
import json, os, random, re
import concurrent.futures as cf
import cases, prod, tlc

HEAD = 'struct S { int x; boolean y; };\n'
MARKS = ('{', '}', ';', 'else', 'while', 'break', 'return', ')')
START = ['top', 'int', 'void', 'boolean', 'ref']


def explore(c, stack, length, start=START, hist='n'):
    def one(f):
        rc, out = tlc.run('Syntax', os.path.join(c.work, 'syn-%s-%s' % (f, hist)), timeout=840,
                          env={'FROM': f, 'MAXSTACK': str(stack[f != 'top']), 'MAXLEN': str(length), 'HIST': hist})
        if rc:
            raise RuntimeError('TLC failed on Syntax from %s: %s' % (f, out[-3000:]))
        res = {}
        for m in re.finditer(r'"(\{.*\})"', out):
            d = json.loads(m.group(1).replace('\\"', '"'))
            res[' '.join(d['p'])] = d
        return res, tlc.stats(out)
    all_, seen = [], set()
    with cf.ThreadPoolExecutor(5) as ex:
        for res, st in ex.map(one, start):
            c.add(states=st[1], transitions=st[0])
            for k, d in res.items():
                if k not in seen:
                    seen.add(k)
                    all_.append(d)
    return all_


def render(toks, r, keep=None):
    """text of the tokens; the tokens from index keep on share a line with their two successors;
    returns (text, line of token keep)"""
    out, n, line, at = [HEAD], 0, 2, 0
    for i, t in enumerate(toks):
        if i:
            free = keep is None or i <= keep
            s = r.choice([' ', ' ', ' ', '\t', '\n', '\n\n', ' /* c */ ', ' // x\n', '/*\n*/ ']) if free else r.choice([' ', '  ', ' /* c */ '])
            out.append(s)
            line += s.count('\n')
        if i == keep:
            at = line
        if t == 'name':
            n += 1
            t = 'n%d' % n
        out.append({'i': '1', 'b': r.choice(['true', 'false'])}.get(t, t))
    out.append('\n')
    return ''.join(out), at


def check(c):
    r = random.Random('c11/%d' % c.seed)
    ds = explore(c, *c.q(((9, 11), 13), ((11, 15), 20)))
    b = c.built()
    pairs = [(t, h) for t in cases.TR for h in b.hosts()]
    todo = []
    for d in ds:
        todo.append(('acc', d['p'] + d['c'], None))
        if d['c']:
            todo.append(('eof', d['p'], None))
        for t, q in d['ok'].items() if isinstance(d['ok'], dict) else ():
            todo.append(('acc', d['p'] + [t] + q, None))
        no = set(d['no'])
        for j in range(1, len(d['c'])):             # tokens left out
            if d['c'][j] in no:
                todo.append(('rej', d['p'] + d['c'][j:], len(d['p'])))
        for t in d['no']:
            todo.append(('rej', d['p'] + [t] + d['c'], len(d['p'])))
            if d['c']:
                todo.append(('rej', d['p'] + [t] + d['c'][1:], len(d['p'])))
                if t in (';', '}', ')'):            # texts that could end here
                    todo.append(('rej', d['p'] + [t], len(d['p'])))
            if t in ('break', 'continue', 'return', 'else', 'name', 'i', 'b', 'null'):
                todo.append(('rej', d['p'] + [t, ';'] + d['c'], len(d['p'])))
    # the same configuration reached through different statements
    past = explore(c, *c.q(((0, 9), 15), ((0, 11), 17)), start=['int', 'void'], hist='y')
    hist = []
    for d in past:
        hist.append(('acc', d['p'] + d['c'], None))
        for t in d['no']:
            if t in MARKS:
                hist += [('rej', d['p'] + x, len(d['p'])) for x in ([t, ';'] + d['c'], [t] + d['c'], [t])]
    r.shuffle(hist)
    hist.sort(key=lambda x: not (x[2] == len(x[1]) - 1 and x[1][-1] == '}'))    # functions that end too early first
    hist = hist[:c.q(16000, 300000)]
    r.shuffle(todo)
    total = len(todo) + len(hist)
    todo.sort(key=lambda x: len(x[1]) > 11)         # all the short ones
    n = sum(len(x[1]) <= 11 for x in todo)
    todo = todo[:c.q(max(n, 20000), 500000)] + hist
    jobs, info = [], {}
    for i, (kind, toks, k) in enumerate(todo):
        src, line = render(toks, r, k)
        t, h = pairs[i % len(pairs)]
        info[i] = kind, toks, k, src, line, t, h
        jobs.append((i, [b.tool(t, h)] + r.choice([[], ['-O0'], ['-O1']]), src, False))
    cnt = dict(acc=0, rej=0, eof=0)
    for i, rc, _, err in cases.run_many(jobs):
        kind, toks, k, src, line, t, h = info[i]
        cnt[kind] += 1
        at = cases.err_at(err)
        what = None
        if kind == 'acc':
            if rc or err:
                what = 'rejects a text of the grammar (%d, %s)' % (rc, err.strip()[:200])
        elif rc == 0:
            what = 'accepts a text that is not of the grammar'
        elif rc < 0 or rc > 100 or not at:
            what = 'ends with status %d, %r' % (rc, err[:200])
        elif kind == 'rej' and k + 2 < len(toks) and at[1] != line:
            what = 'names line %d instead of %d (%s)' % (at[1], line, at[2])
        if what:
            c.violation('%s/%s' % (kind, ' '.join(toks)), '%s (%s) %s: %s' % (t, h, what, ' '.join(toks)), {'program.cmm': src})
    c.sample('%d texts, for instance %s' % (total, todo[:2]))
    c.add(traces_validated_against_impl=len(jobs), configurations=len(ds), configurations_with_history=len(past), accepted=cnt['acc'], rejected=cnt['rej'] + cnt['eof'])
    for kind, mode, n in (('vm', 16, c.q(60, 3000)), ('c', 32, c.q(40, 2000))):
        prod.drive(c, kind, prod.corpus(c.seed + 11, [('ctl', n)], mode=mode))
    c.add(traces_validated_against_impl=c.cov.get('validated', 0))
    return 'model_checking'
