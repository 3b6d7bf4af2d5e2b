"""What every check has in common: scratch directory, build of the tree under test,
violations with replay files, known findings, evidence."""
import json, os, shutil, sys, tempfile, time, atexit

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, 'lib'))
import build  # noqa: E402

NCPU = min(8, os.cpu_count() or 4)


class Check:
    def __init__(self, pid, tier=None, seed=None):
        self.pid = pid
        self.tier = tier or os.environ.get('VERIF_TIER', 'quick')
        if self.tier not in ('quick', 'thorough'):
            self.tier = 'quick'
        self.seed = int(seed if seed is not None else os.environ.get('VERIF_SEED', '1') or 1)
        self.t0 = time.time()
        self.work = tempfile.mkdtemp(prefix='cmmv-%s-' % pid)
        self.owner = os.getpid()
        atexit.register(self.clean)
        self.nviol = 0
        self.keys = set()
        self.cov = {}
        self.samples = []
        self.assumptions = []
        self._b = None
        self.rdir = os.path.join(VERIF, 'evidence', 'replay', pid)
        shutil.rmtree(self.rdir, ignore_errors=True)
        self.known = self.load_known()
        self.knownhit = []

    def clean(self):
        if os.getpid() == self.owner:
            shutil.rmtree(self.work, ignore_errors=True)

    def q(self, quick, thorough):
        return quick if self.tier == 'quick' else thorough

    # ---- the tree under test ----
    def built(self, self_hosted=True):
        if self._b is None:
            self._b = build.build(os.path.join(self.work, 'b'), self_hosted)
        return self._b

    # ---- outcomes ----
    def load_known(self):
        """key -> text, of the findings listed for this property"""
        res = {}
        p = os.path.join(VERIF, 'known-findings.txt')
        if os.path.exists(p):
            for l in open(p):
                l = l.strip()
                if l.startswith('known: property=%s ' % self.pid):
                    rest = l.split(' ', 2)[2]
                    key, _, text = rest.partition(' ')
                    res[key.split('=', 1)[1]] = text
        return res

    def violation(self, key, text, files=None):
        """report a violation once per key; files: name -> contents"""
        if key in self.known:
            if key not in self.knownhit:
                self.knownhit.append(key)
                print('KNOWN-FINDING: property=%s %s' % (self.pid, self.known[key]), flush=True)
            return
        if key in self.keys:
            return
        self.keys.add(key)
        self.nviol += 1
        if self.nviol > 8:
            return
        d = os.path.join(self.rdir, '%02d' % self.nviol)
        os.makedirs(d, exist_ok=True)
        files = dict(files or {})
        files['what.txt'] = 'property %s, key %s\n\n%s\n' % (self.pid, key, text)
        for n, s in files.items():
            with open(os.path.join(d, n), 'wb') as f:
                f.write(s if isinstance(s, bytes) else s.encode('utf-8', 'replace'))
        print('  ' + text.replace('\n', '\n  ')[:1500], flush=True)
        print('VIOLATION property=%s replay=%s' % (self.pid, d), flush=True)

    def add(self, **kw):
        for k, v in kw.items():
            self.cov[k] = self.cov.get(k, 0) + v

    def sample(self, s, limit=4):
        if len(self.samples) < limit:
            self.samples.append(s if len(s) < 1500 else s[:1500] + ' ...')

    def finish(self, level):
        cov = dict(self.cov)
        cov['samples'] = self.samples
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level=level, coverage=cov,
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2),
                  violations=self.nviol)
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', self.pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        print('%s %s: %s in %.1f s' % (self.pid, self.tier,
              ', '.join('%s %s' % (k, v) for k, v in sorted(self.cov.items())
                        if isinstance(v, int)), ev['wall_s']))
        self.clean()
        return 1 if self.nviol else 0
