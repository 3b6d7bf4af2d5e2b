"""Rebuild the compilers, libraries and drivers from /repo's working tree in a
scratch directory."""
import os, shutil, subprocess, hashlib

REPO = os.environ.get('CMM_REPO', '/repo')
TRANS = ('c--', 'vm-c--', 'ic-c--', 'c-c--', 'rtc-c--')


class BuildError(Exception):
    pass


def sh(cmd, cwd, env=None, timeout=600):
    p = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       timeout=timeout, shell=isinstance(cmd, str))
    if p.returncode:
        raise BuildError('%s failed in %s:\n%s' % (cmd, cwd, p.stdout.decode('utf-8', 'replace')[-4000:]))
    return p.stdout


SAN = ('#!/bin/bash\nexec /usr/bin/gcc -g -fsanitize=address,bounds,null,alignment,object-size,pointer-overflow,integer-divide-by-zero,'
       'vla-bound,unreachable,return,bool,enum -fno-sanitize-recover=undefined -fno-omit-frame-pointer -w "$@"\n')


def build(dst, self_hosted=True, san=False):
    """copy the sources to dst and build; returns a Built.  san: every program is compiled with sanitizers"""
    tree = os.path.join(dst, 'tree')
    prefix = os.path.join(dst, 'prefix')
    os.makedirs(tree)
    os.makedirs(os.path.join(prefix, 'bin'))
    for d in ('src', 'src--', 'include', 'lib', 'VERSION'):
        s = os.path.join(REPO, d)
        if os.path.isdir(s):
            shutil.copytree(s, os.path.join(tree, d), symlinks=True)
        elif os.path.exists(s):
            shutil.copy2(s, os.path.join(tree, d))
    sh("grep -rlI /usr/local . | xargs -r sed -i 's#/usr/local#%s#g'" % prefix, tree)
    env = dict(os.environ)
    env['PATH'] = prefix + '/bin:' + env['PATH']
    env['MAKEFLAGS'] = ''
    if san:
        w = os.path.join(dst, 'w')
        os.makedirs(w)
        for n in ('cc', 'gcc'):
            with open(os.path.join(w, n), 'w') as f:
                f.write(SAN)
            os.chmod(os.path.join(w, n), 0o755)
        env['PATH'] = w + ':' + env['PATH']
        env['ASAN_OPTIONS'] = 'detect_leaks=0'
    for d in ('src', 'src--', 'lib'):
        sh(['make', '-s', '-C', d, 'clean'], tree, env)
    sh(['make', '-C', 'src', '-j8', 'all'], tree, env)
    sh(['make', '-C', 'src', 'install'], tree, env)
    sh(['make', '-C', 'include', 'install'], tree, env)
    if self_hosted:
        sh(['make', '-C', 'lib/LibRtc', 'install'], tree, env)
        sh(['make', '-C', 'lib/LibNortc', 'install'], tree, env)
        sh(['make', '-C', 'src--', *TRANS, 'cm2e', 'cm2c', 'cm2i', 'cm2v'], tree, env)
    return Built(dst, tree, prefix, env, self_hosted)


class Built:
    def __init__(self, dst, tree, prefix, env, selfh):
        self.dst, self.tree, self.prefix, self.env, self.selfh = dst, tree, prefix, env, selfh
        self.bin = os.path.join(prefix, 'bin')
        self.shbin = os.path.join(tree, 'src--')
        self.include = os.path.join(prefix, 'cmmInclude')
        self.lib = os.path.join(prefix, 'cmmLib')

    def tool(self, name, host='src'):
        return os.path.join(self.bin if host == 'src' else self.shbin, name)

    def hosts(self):
        return ('src', 'src--') if self.selfh else ('src',)

    def compile(self, name, src, opts=(), host='src', timeout=20, cwd=None):
        """run a translator on a source text; (rc, stdout, stderr)"""
        if isinstance(src, str):
            src = src.encode('utf-8')
        try:
            p = subprocess.run([self.tool(name, host), *opts], input=src, stdout=subprocess.PIPE,
                               stderr=subprocess.PIPE, timeout=timeout, cwd=cwd or self.dst)
            return p.returncode, p.stdout.decode('latin-1'), p.stderr.decode('utf-8', 'replace')
        except subprocess.TimeoutExpired:
            return -99, '', 'timeout'
