"""Running TLC."""
import os, re, subprocess, json, concurrent.futures as cf, time

JAR = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
SPEC = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'spec')


def run(module, work, env=None, cfg=None, timeout=600, workers=1, extra=(), heap='2g'):
    """run TLC on spec/<module>.tla in directory work; returns (rc, output)"""
    os.makedirs(work, exist_ok=True)
    e = dict(os.environ)
    e.update(env or {})
    cfg = os.path.join(SPEC, cfg or module + '.cfg')
    cmd = ['java', '-Xmx' + heap, '-Xss64m', '-XX:+UseSerialGC', '-XX:TieredStopAtLevel=4',
           '-Djava.io.tmpdir=' + work, '-cp', JAR, '-DTLA-Library=' + SPEC, 'tlc2.TLC', '-noGenerateSpecTE', '-nowarning',
           '-metadir', os.path.join(work, 'states'), '-workers', str(workers),
           '-config', cfg, *extra, os.path.join(SPEC, module + '.tla')]
    try:
        p = subprocess.run(cmd, cwd=work, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           timeout=timeout)
        return p.returncode, p.stdout.decode('utf-8', 'replace')
    except subprocess.TimeoutExpired as t:
        return -9, (t.stdout or b'').decode('utf-8', 'replace')


def stats(out):
    m = re.search(r'(\d+) states generated, (\d+) distinct states found', out)
    return (int(m.group(1)), int(m.group(2))) if m else (0, 0)


VL = re.compile(r'^<<"V", (.*)>>$')


def verdicts(out):
    """the <<"V", id, st, ...>> lines printed by the Report operator"""
    res = {}
    # TLC wraps long values over several lines
    joined = re.sub(r'\n\s+', ' ', out)
    for m in re.finditer(r'<<\s*"V",\s*(\d+),\s*"(\w+)",\s*(.*?)>>\s*(?=\n|$)', joined):
        i = int(m.group(1))
        if i not in res or m.group(2) == 'bad' != res[i][0]:
            res[i] = (m.group(2), m.group(3))
    return res
