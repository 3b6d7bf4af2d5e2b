"""Cases enumerated by TLC from a specification, and running translators over many of them."""
import glob, json, os, re, subprocess
import concurrent.futures as cf
import multiprocessing as mp
import tlc

TR = ('c--', 'vm-c--', 'ic-c--', 'c-c--', 'rtc-c--')


def enumerate_(c, module, nparts=8, env=None, timeout=800, heap='3g', cfg=None):
    """run TLC on module in nparts processes; every part writes OUT/<k>.json; returns (cases, states)"""
    out = os.path.join(c.work, 'enum-' + module)
    os.makedirs(out, exist_ok=True)

    def one(p):
        e = {'PART': str(p), 'OUT': out}
        e.update(env or {})
        rc, txt = tlc.run(module, os.path.join(out, 'w%d' % p), env=e, timeout=timeout, heap=heap, cfg=cfg)
        if rc:
            raise RuntimeError('TLC failed on %s part %d: %s' % (module, p, txt[-3000:]))
        return tlc.stats(txt)

    with cf.ThreadPoolExecutor(8) as ex:
        st = list(ex.map(one, range(nparts)))
    res = []
    for f in sorted(glob.glob(out + '/*.json'), key=lambda x: int(re.sub(r'\D', '', os.path.basename(x)) or 0)):
        with open(f) as h:
            res += json.load(h)
    c.add(states=sum(x[1] for x in st), transitions=sum(x[0] for x in st))
    return res


def one_run(a):
    """(key, argv, input text, wanted stdout?) -> (key, rc, stdout, stderr)"""
    key, argv, src, want = a
    try:
        p = subprocess.run(argv, input=src if isinstance(src, bytes) else src.encode('utf-8'), timeout=20,
                           stdout=subprocess.PIPE if want else subprocess.DEVNULL, stderr=subprocess.PIPE)
        return key, p.returncode, (p.stdout or b'').decode('latin-1'), p.stderr.decode('utf-8', 'replace')
    except subprocess.TimeoutExpired:
        return key, -99, '', 'timeout'


def run_many(jobs, procs=8):
    """jobs: list of (key, argv, input, want stdout); results in any order"""
    if not jobs:
        return []
    with mp.get_context('fork').Pool(procs) as pool:
        return list(pool.imap_unordered(one_run, jobs, chunksize=max(1, min(64, len(jobs) // (procs * 4)))))


ERR = re.compile(r'^"(.*?)": *(\d+) *: *(.*)', re.S)


def err_at(stderr):
    """(file, line, message) of an error message, or None"""
    m = ERR.match(stderr)
    return (m.group(1), int(m.group(2)), m.group(3).strip()) if m else None
