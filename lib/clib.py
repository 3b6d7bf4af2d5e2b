"""Programs that call the library, built with the real command cm2c (with and without run-time checks) and run in a
scratch directory.  Every call is followed by mark(number, result) of harness.c, which records how much has been written."""
import os, subprocess
import concurrent.futures as cf

HARNESS = r'''
#include <stdio.h>
#include <stdlib.h>
#include <unistd.h>
static FILE *lg;
void mark(int k, int r) {
  if (lg == NULL) lg = fopen("LOG", "w");
  fflush(stdout); fflush(stderr);
  fprintf(lg, "%d %d %ld %ld\n", k, r, (long)lseek(1, 0, SEEK_CUR), (long)lseek(2, 0, SEEK_CUR));
  fflush(lg);
}
int which(void) { char *s = getenv("WHICH"); return s == NULL ? -1 : (int)strtol(s, NULL, 10); }
'''


def build(c, name, text, mode, host='src', files=(), harness=HARNESS):
    """build program text (C--); returns the directory with ./prog, or raises RuntimeError"""
    b = c.built()
    d = os.path.join(c.work, 'cl-' + name)
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, 'prog.cmm'), 'w', encoding='latin-1') as f:
        f.write(text)
    with open(os.path.join(d, 'harness.c'), 'w') as f:
        f.write(harness)
    for n, s in files:
        with open(os.path.join(d, n), 'w') as f:
            f.write(s)
    env = dict(b.env)
    env['HOME'] = d
    p = subprocess.run([b.tool('cm2c'), mode, '-o', 'prog', 'prog.cmm', 'harness.c'], cwd=d, env=env, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, timeout=300, stdin=subprocess.DEVNULL)
    if p.returncode or not os.path.exists(os.path.join(d, 'prog')):
        raise RuntimeError('cm2c %s fails on %s: %s' % (mode, name, p.stdout.decode('utf-8', 'replace')[-2000:]))
    return d


def run(d, which=-1, args=(), stdin=b'', env=None, tag='0', cwd=None, timeout=60):
    """(status, stdout, stderr, log) of one run in a directory of its own"""
    w = cwd or os.path.join(d, 'run-%s' % tag)
    os.makedirs(w, exist_ok=True)
    e = dict(env if env is not None else {'PATH': '/usr/bin:/bin'})
    e['WHICH'] = str(which)
    with open(os.path.join(w, 'OUT'), 'wb') as o, open(os.path.join(w, 'ERR'), 'wb') as r:
        p = subprocess.run([os.path.join(d, 'prog'), *args], cwd=w, env=e, input=stdin, stdout=o, stderr=r, timeout=timeout)
    rd = lambda n: open(os.path.join(w, n), 'rb').read() if os.path.exists(os.path.join(w, n)) else b''
    lg = [tuple(int(x) for x in l.split()) for l in rd('LOG').decode().splitlines()]
    return p.returncode, rd('OUT'), rd('ERR'), lg


def lit(bs):
    """a C-- string literal; hexadecimal escapes go on as long as there are digits"""
    out, esc = '', False
    for x in bs:
        esc = x in (34, 92) or x < 32 or x > 126 or esc and chr(x) in '0123456789abcdefABCDEF'
        out += '\\x%02x' % x if esc else chr(x)
    return '"' + out + '"'


def num(limbs):
    v = limbs[0] << 16 | limbs[1]
    return '%d' % v if v < 65536 else '(0x%x<<16|0x%x)' % (limbs[0], limbs[1])


def printf(c, r, systematic, rand, n):
    """events of calls of printf and fprintf in the C library, as (name, events)"""
    from itertools import islice
    good = list(systematic) + [rand(False) for _ in range(n)]
    r.shuffle(good)
    good = good[:c.q(900, 20000)] + good[-c.q(900, 20000):] if len(good) > c.q(1800, 40000) else good
    bads = []
    while len(bads) < c.q(12, 60):
        f, a = rand(True)
        if any(f.rstrip(b'z\n').endswith(x) for x in (b'%', b'%-', b'%0', b'%5', b'%5u', b'%lx', b'%l', b'%X', b'%i', b'%+d', b'%.2d')):
            bads.append((f, a))
    ch = 400
    work = []
    for mode in ('-rtc', '-nortc'):
        for k in range(0, len(good), ch):
            if c.tier == 'quick' and (k // ch) % 2 != (mode == '-rtc'):
                continue
            work.append((mode, k, good[k:k + ch], False))
        work.append((mode, -1, bads, True))

    def one(a):
        mode, base, calls, bad = a
        dec, body = [], []
        for k, (f, args) in enumerate(calls):
            xs = []
            for j, x in enumerate(args):
                if x['k'] == 'n':
                    xs.append(num(x['v']))
                elif x['k'] == 's':
                    xs.append(lit(x['v']))
                else:
                    dec.append('int[] a%d_%d = {%s, %s};' % (k, j, num(x['v'][:2]), num(x['v'][2:])))
                    xs.append('a%d_%d' % (k, j))
            call = ', '.join([lit(f)] + xs)
            call = ['printf(%s)', 'fprintf(stderr, %s)', 'fprintf(stdout, %s)'][k % 3] % call
            body.append('  if (which()==%d || which()==0-1) mark(%d, %s);' % (k, k, call))
        fns, cur = [], []
        for i in range(0, len(body), 50):
            fns.append('void f%d() {\n%s\n}\n' % (i, '\n'.join(body[i:i + 50])))
            cur.append('  f%d();' % i)
        text = ('#include <stdio.hmm>\npublic void mark(int k, int r);\npublic int which();\n' + '\n'.join(dec) + '\n' + '\n'.join(fns)
                + 'public int main() {\n%s\n  return 0;\n}\n' % '\n'.join(cur))
        nm = 'printf%s%d' % (mode, base)
        d = build(c, nm, text, mode)
        evs = []
        for w in (range(len(calls)) if bad else [-1]):
            rc, out, err, lg = run(d, w, tag='%d' % w)
            if bad:
                f, a = calls[w]
                o = err if w % 3 == 1 else out
                if w % 3 == 1 and rc == 1:
                    for t in (b'fprintf: Invalid conversion\n', b'Illegal format string\n'):
                        o = o.removesuffix(t)
                evs.append(dict(fmt=list(f), args=a, out=list(o), r=lg[0][1] if lg else (-32 if rc == 1 else rc),
                                st='ret' if lg else 'exit', stray=False))
                continue
            po = pe = 0
            seen = {x[0]: x for x in lg}
            for k, (f, a) in enumerate(calls):
                if k not in seen:
                    evs.append(dict(fmt=list(f), args=a, out=[], r=rc, st='exit', stray=False))
                    break
                _, rr, qo, qe = seen[k]
                o = err[pe:qe] if k % 3 == 1 else out[po:qo]
                evs.append(dict(fmt=list(f), args=a, out=list(o), r=rr, st='ret', stray=(qo != po) if k % 3 == 1 else (qe != pe)))
                po, pe = qo, qe
        return 'cm2c ' + mode, evs
    with cf.ThreadPoolExecutor(8) as ex:
        return list(ex.map(one, work))
