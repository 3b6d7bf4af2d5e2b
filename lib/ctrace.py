"""Running the C translation of programs and recording their traces."""
import os, re, resource, subprocess

CFLAGS = ['-g', '-O0', '-fcommon', '-funsigned-char', '-w', '-Dmain=_cmain', '-D__main=_cmain']
HDR = '''
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <stdarg.h>
static int inp_[100];
static int nin_, ninp_;
static char buf_[70000];
static int n_;
static void o_(int x) { n_ += sprintf(buf_ + n_, "%d ", x); }
static void e_() { buf_[n_++] = '\\n'; if (write(1, buf_, n_) != n_) _exit(9); n_ = 0; }
static int cnt_;
static void args_(int n, char *v[]) { for (ninp_ = 0; ninp_ < n - 1; ninp_++) inp_[ninp_] = atoi(v[ninp_ + 1]); }
static void cnt() { if (++cnt_ > 20000) _exit(8); }
'''


NEW = {}
for _n, _t, _c in (('newI', '_IA', 'int'), ('newC', '_CA', 'char'), ('newR', '_RA', 'void *'), ('newS', '', '')):
    _p = 'void *' if _n in ('newS', 'newR') else _c + ' *'
    NEW[_n] = ('%s%s(int n) { cnt(); o_(@); o_(n); e_(); return malloc(%s); }' % (
        _p, _n, 'n * sizeof(%s)' % _c if _c else 'n'),
        '%s%s(int n) { cnt(); o_(@); o_(n); e_(); %s return p; }' % (
        'void *' if _n in ('newS', 'newR') else _t + ' *', _n,
        '%s *p = malloc(sizeof(%s) + n * sizeof(%s)); p->l = n;' % (_t, _t, _c) if _c else 'void *p = malloc(n);'))


def ctype(t, rtc):
    if t == 'char' or t == 'boolean':
        return 'char'
    if t in ('int', 'void'):
        return t
    if t == 'char[]':
        return '_CA *' if rtc else 'char *'
    return 'void *'


def stub(g, rtc):
    s = []
    for f in g.funcs:
        j = f['j']
        if not j['ext']:
            continue
        va = f['pts'][-1:] == ['...']
        if f['name'] in NEW:
            s.append(NEW[f['name']][rtc].replace('@', str(f['no'])))
            continue
        ps = ', '.join('...' if t == '...' else '%s a%d' % (ctype(t, rtc), i) for i, t in enumerate(f['pts']))
        s.append('%s %s(%s) {' % (ctype(f['t'], rtc), f['name'], ps))
        s.append('  cnt(); o_(%d);' % f['no'])
        for i, k in enumerate(j['args']):
            if k == 's':
                s.append('  { char *p = a%d%s; o_(-1); while (*p) o_(*p++); }' % (i, '->a' if rtc else ''))
            else:
                s.append('  o_(a%d);' % i)
        if va:
            s.append('  va_list ap; va_start(ap, a0); for (int i = 0; i < a0; i++) o_(va_arg(ap, int));')
        s.append('  e_();')
        if j['rk'] == 'i':
            s.append('  return inp_[nin_++ % ninp_];')
        s.append('}')
    if g.vmain:
        s.append('void _cmain();\n#undef main\nint main(int n, char *v[]) { args_(n, v); _cmain(); o_(0); o_(0); e_(); return 0; }')
    else:
        s.append('int _cmain();\n#undef main\nint main(int n, char *v[]) { args_(n, v); int r = _cmain(); o_(0); o_(r); e_(); return 0; }')
    return HDR, '\n'.join(s) + '\n'


def limits():
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    resource.setrlimit(resource.RLIMIT_CPU, (10, 10))


MSG = re.compile(r'^(.*):(\d+) (Null Pointer|Out of Bound)(.*)$')


def execute(built, g, ctext, rtc, work, fname, inputs):
    """compile, run with each list of inputs; returns [(trace, fault)] or error text"""
    os.makedirs(work, exist_ok=True)
    pc = os.path.join(work, 'p.c')
    ex = os.path.join(work, 'x')
    st = stub(g, rtc)
    open(pc, 'w', encoding='latin-1').write(st[0] + '#line 1 "program.c"\n' + ctext +
                                            '\n#line 1 "stub.c"\n' + st[1])
    lib = os.path.join(built.tree, 'lib', 'SrcC')
    fl = CFLAGS + (['-D_RTC'] if rtc else []) + ['-I' + lib, '-I' + built.include]
    p = subprocess.run(['gcc', *fl, '-include', 'wrapper.h', '-o', ex, pc],
                       cwd=work, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=60)
    if p.returncode:
        return 'gcc: ' + p.stdout.decode('utf-8', 'replace')[:800]
    return [once(ex, rtc, work, fname, inp) for inp in inputs]


def once(ex, rtc, work, fname, inp):
    try:
        r = subprocess.run([ex] + [str(i) for i in inp], cwd=work, stdin=subprocess.DEVNULL,
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=20, preexec_fn=limits)
        rc, out, err = r.returncode, r.stdout.decode('latin-1'), r.stderr.decode('utf-8', 'replace')
    except subprocess.TimeoutExpired as t:
        rc, out, err = -999, (t.stdout or b'').decode('latin-1'), 'timeout'
    trace = [[int(x) for x in l.split()] for l in out.split('\n') if l.strip()]
    if rc == 0 and not err:
        return trace, []
    if rtc and rc == -6:
        m = MSG.match(err.strip())
        if m and m.group(1) == fname and '\n' not in err.strip():
            i = re.search(r'idx=(-?\d+)', m.group(4))
            return trace, [int(m.group(2)), 0 if m.group(3)[0] == 'N' else 1,
                           int(i.group(1)) if i else 0]
    return trace, [-1, rc]
