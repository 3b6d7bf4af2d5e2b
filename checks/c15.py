"""Errors are reported at the right file and line: histories of tokens, separators, line markers and errors
of the machine spec/Lines.tla, replayed into the translators."""
import json, os, random, re
import concurrent.futures as cf
import cases, tlc

TOK = ('int a = 1 ; int [ ] b ; struct S { int x ; } ; int f ( int u , boolean v ) { int x = u ; '
       'while ( v ) { x = b [ x ] + 1 ; } return x ; }').split()
FILES = {'a': ['a.cmm', 'x y.cmm', 'n' * 128, '日本.cmm', 'STDIN', '<command-line>'], 'b': ['b.inc', '', '/tmp/cmmInclude/b.h', './../b.cmm'],
         'sys': ['/usr/local/cmmInclude/stdio.hmm', 'x/cmmInclude/sub/q.hmm']}
MARK = ['# %d "%s"\n', '# %d "%s" 1 3\n', '#%d "%s"  \n', '# \t%d\t"%s" 2 // x\n']
SEP = {'sp': ['  ', ' \f'], 'tab': ['\t'], 'nl': ['\n'], 'crnl': ['\r\n', ' \n'],
       'com': ['/* c */', '/**/', '/***/', '/* // */', '/* " */'],
       'comnl': ['/* \n */', '/*/\n*/', '/*\n**/'], 'comsharp': ['/*\n# 5 "no"\n*/'],
       'eol': ['// c\n', '//\n', '// /* "\n'], 'eolsharp': ['// # 3 "no"\n', '//# 3 "no" \\\n']}
ERR = {'badchar': ["'ab' ;", "'\\xg' ;"], 'badesc': ['"a\\xg" ;', '"\\777" ;'], 'openstr': ['"abc\n ;', '"abc'],
       'openchr': ["'a ;", "'a\n' ;"], 'bighex': ["'\\x100' ;", '"\\x1ff" ;'], 'nohex': ['0x ;', '0xg ;'],
       'longname': ['n' * 129 + ' ;'], 'longstr': ['"' + 's' * 129 + '" ;'],
       'marknonum': ['# x\n', '#\n', '# "a.cmm"\n'], 'marknofile': ['# 77 x\n', '# 77\n'], 'markopen': ['# 77 "abc\n', '# 77 "abc'],
       'marklong': ['# 77 "' + 'n' * 129 + '"\n'],
       'at': ['@ ;', '$ ;', '` ;'], 'dotdot': ['.. ;', '... ... ;'],
       'undef': ['zz + 1 +', 'zz [ 0 ] +'],
       'redecl': ['void a ( ) ;', 'struct S { int q ; } ; ;'], 'noproto': ['int k9 = true ;', 'int k9 = "x" ;'],
       'badtype': ['u = true ; ;', 'v = 1 ; ;', 'f ( 1 ) ; ;'], 'breakout': ['break ; ;', 'continue ; ;'],
       'noret': ['}\n\nint q ;', '}\n', '} int q ;', '}\n# 400 "m.cmm"\nint q ;'],
       'eof': [None], 'opencom': ['/* abc', '/*/', '/* * /']}


def histories(c, exact_depth, sims, simlen):
    jobs = [('e%d' % k, dict(DEPTH=str(exact_depth), EXACT='yes', PARTS='8', PART=str(k)), ()) for k in range(8)]
    jobs += [('s%d' % k, dict(DEPTH=str(1 + k % 4), EXACT='no', PARTS='5', PART=str(k % 5)),
              ('-simulate', 'num=%d' % simlen, '-depth', '300', '-seed', str(c.seed * 1000 + k))) for k in range(sims)]

    def one(j):
        rc, out = tlc.run('Lines', os.path.join(c.work, 'lines-' + j[0]), env=j[1], extra=j[2], timeout=800)
        if rc:
            raise RuntimeError('TLC failed on Lines %s: %s' % (j[0], out[-3000:]))
        st = tlc.stats(out)
        if not st[0]:
            m = re.search(r'number of states generated: (\d+)', out)
            st = (int(m.group(1)),) * 2 if m else (0, 0)
        return [json.loads(m.group(1).replace('\\"', '"')) for m in re.finditer(r'^"(\{.*\})"$', out, re.M)], st
    res, seen = [], set()
    with cf.ThreadPoolExecutor(8) as ex:
        for hs, st in ex.map(one, jobs):
            c.add(states=st[1], transitions=st[0])
            for h in hs:
                k = json.dumps(h['h'])
                if k not in seen:
                    seen.add(k)
                    res.append(h)
    return res


def render(h, r, arg):
    """(text, where: id of a file -> name)"""
    out, last, names = [], '\n', {'arg': [arg]}
    cur = {}
    for e in h['h']:
        if e[0] == 'tok':
            t = TOK[e[1] - 1]
            if re.match(r'\w', t) and re.match(r'[\w#]', last[-1]):
                t = ' ' + t
            elif last[-1] != '\n' and r.random() < .5 or last[-1] in '/+':
                t = ' ' + t
        elif e[0] == 'sep':
            t = r.choice(SEP[e[1]])
            if last[-1] == '/':
                t = ' ' + t
        elif e[0] == 'mark':
            g = cur.setdefault(e[2], r.choice(FILES[e[2]]))
            t = MARK[e[3]] % (e[1], g)
        else:
            t = r.choice(ERR[e[1]]) or ''
            if t and e[1][:4] != 'mark' and last[-1] != '\n':
                t = ' ' + t
        if t:
            out.append(t)
            last = t
    if h['e'] and h['e'][0] not in ('eof', 'opencom') and out[-1][-1] in ';+':
        out.append(' x ; }\n' * 2)
    cur['arg'] = arg
    return ''.join(out), cur


INC = re.compile(r'^#include <(.*)\.h>$|(?<!\w)(a)(?==1)|\*(b)(?=[;=])|^struct _(S) |(?<!\w)(f)(?=\()', re.M)


def wanted(h, cur):
    """what the C translators include and print, in order"""
    res, off, k = [], False, 0
    starts = [0, 5, 10, 18]
    for i, n in enumerate(starts + [len(TOK)]):
        while k < len(h['i']) and h['i'][k][0] == n:
            _, num, g = h['i'][k]
            off = g == 'sys'
            if off and num == 1:
                res.append(os.path.basename(cur[g])[:-4])
            k += 1
        if i < 4 and not off:
            res.append('abSf'[i])
    return res


def check(c):
    r = random.Random('c15/%d' % c.seed)
    hs = histories(c, *c.q((2, 8, 600), (3, 32, 10000)))
    r.shuffle(hs)
    hs.sort(key=lambda h: bool(h['e']))
    b = c.built()
    pairs = [(t, h) for t in cases.TR for h in b.hosts()]
    argdir = os.path.join(c.work, 'src')
    os.makedirs(argdir, exist_ok=True)
    base = {}
    plain = ' '.join(TOK) + '\n'
    for (t, h, o), rc, out, err in cases.run_many([((t, h, o), [b.tool(t, h), o], plain, True) for t, h in pairs for o in ('-O0', '-O1')]):
        if rc or err:
            c.violation('plain', '%s (%s) rejects the plain text: %s' % (t, h, err), {'program.cmm': plain})
            return 'model_checking'
        base[t, h, o] = out
    jobs, info = [], {}
    cap = c.q(40000, 600000)
    for i, h in enumerate(hs[:cap]):
        t, host = pairs[i % len(pairs)]
        o = r.choice(['-O0', '-O1'])
        arg, path = 'STDIN', None
        if i % 8 == 0:
            path = os.path.join(argdir, r.choice(['a b%d.cmm', '字%d.cmm', 's%d']) % i)
            arg = path
        src, cur = render(h, r, arg)
        argv = [b.tool(t, host), o]
        if path:
            with open(path, 'wb') as f:
                f.write(src.encode('utf-8'))
            argv.append(path)
        jobs.append((i, argv, '' if path else src, not h['e']))
        info[i] = h, t, host, o, src, cur
    cnt = dict(accepted=0, rejected=0)
    for i, rc, out, err in cases.run_many(jobs):
        h, t, host, o, src, cur = info[i]
        what = None
        if h['e']:
            cnt['rejected'] += 1
            kind, f, ln = h['e']
            at = cases.err_at(err)
            if rc == 0:
                what = 'accepts a text with an error (%s)' % kind
            elif rc != 1 or not at:
                what = 'ends with status %d, %r' % (rc, err[:200])
            elif at[:2] != (cur[f], ln):
                what = 'reports %r line %d, the error (%s) is in %r line %d' % (at[0], at[1], kind, cur[f], ln)
            elif len(err.strip().split('\n')) != 1:
                what = 'reports more than one error: %r' % err[:300]
        else:
            cnt['accepted'] += 1
            if rc or err:
                what = 'rejects a valid text (%d, %s)' % (rc, err.strip()[:200])
            elif t not in ('c-c--', 'rtc-c--'):
                if out != base[t, host, o]:
                    what = 'gives other output when only the lines differ'
            else:
                inner = [e for e in h['h'] if e[0] == 'mark']
                if len(inner) == len(h['i']):           # markers between declarations only
                    got = [next(x for x in m.groups() if x) for m in INC.finditer(out)]
                    if got != wanted(h, cur):
                        what = 'includes and prints %s, not %s' % (got, wanted(h, cur))
                elif not any(e[2] == 'sys' for e in inner) and t == 'c-c--' and out != base[t, host, o]:
                    what = 'gives other output when only the lines differ'
                if not what and t == 'rtc-c--':
                    m = re.findall(r'"([^"]*)",(\d+)\)\)', out)
                    # the file of the message is the one the function ends in; markers inside it are a known finding of C05
                    if m and not any(e[0] == 'mark' and e[2] != h['r'][0][0] for e in h['h'][h['h'].index(['tok', 19]):h['h'].index(['tok', len(TOK)])]):
                        ok = {(cur[f].encode('utf-8').decode('latin-1'), str(l)) for f, l in h['r']}
                        if len(m) != 1 or m[0] not in ok:
                            what = 'the checked access names %s, not %s' % (m, ok)
        if what:
            c.violation('%s/%s' % (t, json.dumps(h['h'][-6:])), '%s (%s) %s' % (t, host, what), {'program.cmm': src})
    # a file that changes inside a function (known finding)
    src = '# 1 "a.cmm"\nint[] a = array(3);\nvoid f() {\n# 1 "b.inc"\n  a[9] = 1;\n# 5 "a.cmm"\n}\n'
    for h in b.hosts():
        _, rc, out, err = cases.one_run((0, [b.tool('rtc-c--', h)], src, True))
        if '"b.inc",1)' not in out:
            c.violation('rtc/file-in-function', 'rtc-c-- (%s): the access in b.inc line 1 is not named so: %s' % (h, out), {'program.cmm': src})
    c.sample('histories of %d to %d pieces, for instance %r' % (min(len(h['h']) for h in hs), max(len(h['h']) for h in hs), hs[0]['h'][-8:]))
    c.add(traces_validated_against_impl=len(jobs), **cnt)
    return 'model_checking'
