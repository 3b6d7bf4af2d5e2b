"""Histories of the machine spec/Robust.tla and their texts."""
import json, os, random, re
import concurrent.futures as cf
import fam, tlc

PRE = '''int f(int a) { return a; }
void p(int a, ...);
int a;
int[] c;
boolean b;
struct T { T n; int v; int[] x; };
T t;
char[] s;
'''
BEGIN = ['', 'int a=', 'int a="', "int a='", 'int a;/*', 'int a;//', '#', '\n#', '# 1 "', '# 1', 'int a=0x', 'int a=1',
         'int f(){return ', 'char[] s = "\\', "char c='\\", 'int a;\n# 5 "/cmmInclude/x.hmm"\n']
VOC = ('int char boolean void struct typedef public if else while for do return break continue null true false sizeof addrof '
       'ord chr bool array interrupt ( ) { } [ ] ; , . ... = == != < <= << >> + - * / % & && | || ^ ! ~ ++ += 0 1 65535 65536 '
       '0xffff 010 x f T S main "s" "" \'a\' \'\\n\' a b c p " \' \\ # @ $ /* */ // _ if(0) {} [] () int[] ].v (int) ,, ;;').split()
VOC += ['\n', '\0', '\x7f', '日', '\n# 5 "x"\n', '\n#', '\n# 1 "/cmmInclude/q.hmm"\n', '\n# 9 "m', '/*', '\xa0', 'n' * 129, '"' + 's' * 129 + '"',
        'typedef S;', 'struct S { S n; };', '-32768', '0x', "'\\x", '"\\', '\r', '\n// # 3 "y"\n']
PIECE = re.compile(r'/\*.*?\*/|"(?:\\.|[^"\n])*"|\'(?:\\.|[^\'\n])*\'|\w+|[ \t]+|\n|//[^\n]*|[<>=!&|]{2}|\.\.\.|.', re.S)


def leaf(k, n, u):
    """text of n repetitions of k; u: a number not used before"""
    v = 'v%d' % u
    R = range(n)
    return {
        'globals': lambda: ''.join('int %s_%d;\n' % (v, i) for i in R),
        'protos': lambda: ''.join('void %s_%d(int a);\n' % (v, i) for i in R),
        'funcs': lambda: ''.join('int %s_%d(int a){return %d;}\n' % (v, i, i) for i in R),
        'structs': lambda: ''.join('struct %s_%d{int a;};\n' % (v, i) for i in R),
        'typedefs': lambda: ''.join('typedef %s_%d;' % (v, i) for i in R),
        'strings': lambda: ''.join('char[] %s_%d="s%d";\n' % (v, i, i) for i in R),
        'inits': lambda: ''.join('int %s_%d=%d;\n' % (v, i, i) for i in R),
        'glist': lambda: 'int[] %s={%s};\n' % (v, ','.join(['1'] * n)),
        'slist': lambda: 'T[] %s={%s};\n' % (v, ','.join(['{null,1,null}'] * n)),
        'fields': lambda: 'struct %s{%s};\n' % (v, ''.join('int a%d;' % i for i in R)),
        'params': lambda: 'int %s(%s){return 1;}\n' % (v, ','.join('int a%d' % i for i in R)),
        'pparams': lambda: 'int %s(%s);\n' % (v, ','.join('int a%d' % i for i in R)),
        'dims': lambda: 'int%s %s;\n' % ('[]' * n, v),
        'arrays': lambda: 'int%s %s=array(%s);\n' % ('[]' * n, v, ','.join(['1'] * n)),
        'name': lambda: 'int %s;\n' % ('w%d' % u).ljust(n, 'x')[:max(n, len('w%d' % u))],
        'string': lambda: 'char[] %s="%s";\n' % (v, 'a' * n),
        'escapes': lambda: 'char[] %s="%s";\n' % (v, '\\n\\1'[:2 + 2 * (u % 2)] * n),
        'tailoct': lambda: 'char[] %s="%s\\1";\n' % (v, 'a' * n),
        'tailhex': lambda: 'char[] %s="%s\\x1";\n' % (v, 'a' * n),
        'tailnl': lambda: 'char[] %s="%s\\n";\n' % (v, 'a' * n),
        'tailchr': lambda: 'char[] %s="%s\\?";\n' % (v, 'a' * n),
        'comment': lambda: '/*%s*/' % ('x \n'[u % 3] * n),
        'comments': lambda: '/**/' * n,
        'stars': lambda: '/*%s*/' % ('*' * n),
        'blanks': lambda: ' \t\f'[u % 3] * n,
        'lines': lambda: '\n' * n,
        'markers': lambda: '\n' + ''.join('# %d "f"\n' % i for i in R),
        'systems': lambda: '\n' + '# 1 "/cmmInclude/q.hmm"\n' * n + '# 7 "STDIN"\n',
        'sysdecls': lambda: '\n# 1 "/cmmInclude/q.hmm"\n' + ''.join('int %s_%d;\n' % (v, i) for i in R) + '# 7 "STDIN"\n',
        'file': lambda: '\n# 1 "%s"\n' % ('f' * n),
        'zeros': lambda: 'int %s=%s1;\n' % (v, '0' * n),
        'hexes': lambda: 'int %s=0x%s1;\n' % (v, '0' * n),
        'empty': lambda: ';' * n,
        'stmts': lambda: '{%s}' % ('a=1;' * n),
        'calls': lambda: '{%s}' % ('a=f(1);' * n),
        'locals': lambda: '{%s}' % ''.join('int l%d;' % i for i in R),
        'linits': lambda: '{%s}' % ''.join('int l%d=1;' % i for i in R),
        'args': lambda: 'p(1%s);' % (',a' * n),
        'sstrs': lambda: '{%s}' % ('s="x";' * n),
        'blocks': lambda: '{%s}' % ('{int z=1;}' * n),
        'rets': lambda: '{%s}' % ('if(b)return 2;' * n),
        'loops': lambda: '{%s}' % ('while(b)break;' * n),
        'one': lambda: 'a', 'num': lambda: '1',
        'chain': lambda: 'a' + '+a' * n,
        'mixed': lambda: 'a' + '+a*a' * n,
        'dots': lambda: 't%s.v' % ('.n' * n),
        'ands': lambda: 'ord(b%s)' % ('&&a==1' * n),
        'commas': lambda: '(a=1%s,a)' % (',a=2' * n),
        'cchain': lambda: '1' + '+1' * n}[k]()


OPEN = {'brace': None, 'init': ('int v%d=', ';\n'), 'body': ('int v%d(){', 'return 1;}\n'),
        'block': ('{', '}'), 'ifs': ('if(b)', ''), 'ifels': ('if(b)', 'else a=2;'), 'elseif': ('if(a==1)a=2;else ', ''),
        'while': ('while(b)', ''), 'do': ('do ', 'while(b);'), 'fori': ('for(int i@=0;b;a=a+1)', ''), 'for': ('for(a=0;b;a=a+1)', ''),
        'bvar': ('{int x@=1;', '}'), 'asg': ('a=', ';'), 'cond': ('if(0<', ')a=1;'), 'callst': ('f(', ');'), 'ret': ('return ', ';'),
        'linit': ('{int z=', ';}'), 'elem': ('c[a]=c[', '];'),
        'paren': ('(', ')'), 'neg': ('- ', ''), 'plus': ('+ ', ''), 'bnot': ('~', ''), 'nots': ('ord(!bool(', '))'), 'call': ('f(', ')'),
        'index': ('c[', ']'), 'findex': ('t.x[', ']'), 'addr': ('(a+', ')'), 'addl': ('(', '+a)'), 'mulr': ('(a*', ')'), 'divr': ('(a/', ')'),
        'shl': ('(a<<', ')'), 'cast': ('ord(chr(', '))'), 'bcast': ('ord(bool(', '))'), 'andr': ('ord(b&&bool(', '))'),
        'orr': ('ord(b||bool(', '))'), 'cmpr': ('ord(a<', ')'), 'set': ('(a=', ')'), 'comma': ('(a,', ')'),
        'cparen': ('(', ')'), 'cneg': ('- ', ''), 'cbnot': ('~', ''), 'caddr': ('(1+', ')'), 'ccast': ('ord(chr(', '))')}


def build(h):
    out, end = [PRE], []
    loc = 0
    for u, (k, n) in enumerate(h):
        if k == 'cut':
            return ''.join(out)
        if k == 'brace':
            out.append('int%s v%d=%s' % ('[]' * n, u, '{' * n))
            end.append('}' * n + ';\n')
        elif k in OPEN:
            a, z = OPEN[k]
            if '%' in a:
                a = a % u
            if '@' in a:
                out += [a.replace('@', str(loc + i)) for i in range(n)]
                loc += n
            else:
                out.append(a * n)
            end.append(z * n)
        else:
            out.append(leaf(k, n, u))
            out += reversed(end)
            end = []
    return ''.join(out + end[::-1])


def edit(h, bases):
    t = PIECE.findall(bases[h[0][1]])
    for o, p, x, y in h[1:]:
        if not t:
            t = ['x']
        i = p * len(t) // 1000
        if o == 'del':
            del t[i]
        elif o == 'dup':
            t.insert(i, t[i])
        elif o == 'swap':
            j = x * len(t) // 10000
            t[i], t[j] = t[j], t[i]
        elif o == 'rep':
            t[i] = VOC[x % len(VOC)]
        elif o == 'ins':
            t.insert(i, VOC[x % len(VOC)])
        elif o == 'cut':
            del t[i:]
        elif o == 'move':
            j = x * len(t) // 10000
            t[i:i] = t[j:j + y % 13]
        elif o == 'trim':
            t[i] = t[i][:x % (len(t[i]) + 1)]
        elif o == 'byte':
            t[i] = t[i][:x % (len(t[i]) + 1)] + chr(y % 256) + t[i][x % (len(t[i]) + 1):]
        elif o == 'run':
            t[i] = t[i] * (1 + y % (3 if x % 4 else 700))
        elif o == 'blank':
            t.insert(i, ' ' * (i > 0 and t[i - 1] == '/') + [' ', '\t', '/* c */', '/**/', ' \f'][x % 5])
    return ''.join(t)


def text(h, bases):
    k = h[0][0]
    if k == 'base':
        return edit(h, bases).encode('utf-8', 'surrogatepass')
    if k == 'begin':
        return BEGIN[h[0][1]].encode() + bytes(x for _, x in h[1:])
    return build(h).encode()


def programs(seed, n):
    """valid programs to edit"""
    res = []
    for k in range(n):
        g = fam.make(dict(seed=seed, i=k, fam=['tiny', 'full', 'ctl', 'fold', 'calls'][k % 5], mode=16))
        res.append(g.source())
    return res


def histories(c, plan, nbases, rawlen=2):
    """plan: list of (mode, parts, which parts, simulation)"""
    jobs = []
    for mode, parts, num in plan:
        for k in range(parts):
            ex = ('-simulate', 'num=%d' % num, '-depth', '60' if mode == 'sim' else '10', '-seed', str(c.seed * 1000 + k)) if num else ()
            jobs.append((mode, k, parts, ex))

    def one(j):
        mode, k, parts, ex = j
        rc, out = tlc.run('Robust', os.path.join(c.work, 'rb-%s%d' % (mode, k)), extra=ex, timeout=800, heap='3g',
                          env=dict(MODE=mode, PART=str(k), PARTS=str(parts), BASES=str(nbases), RAWLEN=str(rawlen)))
        if rc:
            raise RuntimeError('TLC failed on Robust %s: %s' % (mode, out[-3000:]))
        st = tlc.stats(out)
        if not st[0]:
            m = re.search(r'number of states generated: (\d+)', out)
            st = (int(m.group(1)),) * 2 if m else (0, 0)
        return [json.loads(m.group(1).replace('\\"', '"')) for m in re.finditer(r'^"(\{.*\})"$', out, re.M)], st
    res, seen = [], set()
    with cf.ThreadPoolExecutor(8) as ex:
        for (mode, *_), (hs, st) in zip(jobs, ex.map(one, jobs)):
            c.add(states=st[1], transitions=st[0])
            for h in hs:
                key = json.dumps(h['h'])
                if key not in seen:
                    seen.add(key)
                    h['m'] = mode
                    res.append(h)
    return res
