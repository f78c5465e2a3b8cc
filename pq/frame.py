"""Running a check: (re)build the MIR dump of /repo's working tree, apply the rule, report."""
import hashlib
import json
import os
import subprocess
import sys
import time
import traceback

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('PQ_REPO', '/repo')
CONFIGS = {
    'full': ['--features', 'full'],
    'flex': ['--no-default-features', '--features', 'lz4_flex,bloom_filter,snappy,brotli,zstd,gzip,async'],
    'none': ['--no-default-features'],
    'serde': ['--features', 'full,serde_types'],
}


def tree_hash():
    h = hashlib.sha256()
    for base, pats in ((REPO, None), (os.path.join(V, 'driver', 'src'), 1)):
        if pats is None:
            files = [os.path.join(REPO, x) for x in ('Cargo.toml', 'Cargo.lock', 'build.rs') if os.path.exists(os.path.join(REPO, x))]
            for d, ds, fs in os.walk(os.path.join(REPO, 'src')):
                ds.sort()
                files += [os.path.join(d, f) for f in sorted(fs)]
        else:
            files = [os.path.join(base, f) for f in sorted(os.listdir(base))]
        for f in files:
            h.update(f.encode() + b'\0')
            with open(f, 'rb') as fh:
                h.update(fh.read() + b'\0')
    return h.hexdigest()


def ensure_driver():
    drv = os.path.join(V, 'driver')
    exe = os.path.join(drv, 'target', 'debug', 'pqmir')
    src = max(os.path.getmtime(os.path.join(drv, 'src', f)) for f in os.listdir(os.path.join(drv, 'src')))
    if not os.path.exists(exe) or os.path.getmtime(exe) < src:
        r = subprocess.run(['cargo', '+nightly', 'build', '--offline'], cwd=drv, capture_output=True, text=True)
        if r.returncode:
            sys.stderr.write(r.stderr[-3000:])
            raise SystemExit(3)


def dump(cfg='full'):
    """path of the dump of the current tree under this feature configuration"""
    ensure_driver()
    name = cfg if REPO == '/repo' else cfg + '-alt'
    out = os.path.join(V, 'target', name + '.json')
    stamp = out + '.stamp'
    h = tree_hash() + open(os.path.join(V, 'driver', 'src', 'main.rs')).read().__len__().__str__()
    if os.path.exists(out) and os.path.exists(stamp) and open(stamp).read() == h:
        return out
    os.makedirs(os.path.join(V, 'target'), exist_ok=True)
    r = subprocess.run(['bash', os.path.join(V, 'dump.sh'), name] + CONFIGS[cfg], capture_output=True, text=True)
    if r.returncode:
        sys.stderr.write(r.stdout[-2000:] + r.stderr[-4000:])
        raise SystemExit(3)
    with open(stamp, 'w') as f:
        f.write(h)
    return out


_progs = {}


def prog(cfg='full'):
    from .core import Prog
    if cfg not in _progs:
        _progs[cfg] = Prog(dump(cfg))
    return _progs[cfg]


def pmap(fn, items, workers=8, fresh=False):
    """fn(item), each item in a forked process of its own (results do not depend on what was analysed
    before); results in order.  Results must be picklable.  fresh: fork even for a single item (the
    tables of interned values belong to one program)"""
    import gc
    import pickle
    import select
    items = list(items)
    if len(items) <= 1 and not fresh:
        return [fn(x) for x in items]
    sys.stdout.flush()
    gc.collect()
    gc.freeze()
    out = [None] * len(items)
    run = {}
    k = 0
    bad = None
    while (k < len(items) and not bad) or run:
        while k < len(items) and len(run) < workers and not bad:
            r, w = os.pipe()
            p = os.fork()
            if p == 0:
                code = 0
                try:
                    os.close(r)
                    try:
                        res = (True, fn(items[k]))
                    except BaseException:
                        res = (False, traceback.format_exc(limit=6))
                    with os.fdopen(w, 'wb') as f:
                        pickle.dump(res, f)
                    sys.stdout.flush()
                except BaseException:
                    code = 1
                finally:
                    os._exit(code)
            os.close(w)
            run[r] = (k, p, [])
            k += 1
        for r in select.select(list(run), [], [])[0]:
            d = os.read(r, 1 << 20)
            if d:
                run[r][2].append(d)
                continue
            j, p, ds = run.pop(r)
            os.close(r)
            os.waitpid(p, 0)
            try:
                okk, v = pickle.loads(b''.join(ds))
            except Exception:
                okk, v = False, 'a worker ended without a result'
            if okk:
                out[j] = v
            else:
                bad = bad or v
    if bad:
        raise RuntimeError('worker failed: ' + bad)
    return out


class Check:
    def __init__(self, pid):
        self.pid = pid
        self.t0 = time.time()
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        self.seed = int(os.environ.get('VERIF_SEED', '1') or 1)
        self.viol = {}
        self.cov = {}
        self.counts = {'obligations': 0, 'discharged': 0}
        self.samples = []
        self.analysed = {}
        self.rules = []
        self.assume = []

    @property
    def P(self):
        return prog('full')

    def rule(self, text):
        self.rules.append(text)

    def ob(self, okk, key, what, where=None, sample=None):
        """one obligation; key identifies the construct without line numbers"""
        self.counts['obligations'] += 1
        if okk:
            self.counts['discharged'] += 1
            if sample is not None and len(self.samples) < 12:
                self.samples.append(str(sample)[:400])
        else:
            self.violation(key, what, where)
        return okk

    def violation(self, key, what, where=None):
        if key not in self.viol:
            self.viol[key] = (what, where)

    def anchor(self, x, name):
        if x is None:
            self.violation('missing-anchor ' + name, 'the construct this rule is anchored at was not found: ' + name)
        return x

    def inst(self, path, cfg='full'):
        i = prog(cfg).inst(path)
        if i is None or 'err' in i:
            self.violation('missing-anchor ' + path, 'function not found in the analysed program: ' + path)
            return None
        self.analysed[path] = 1
        return i

    def floor(self, name, n, least):
        self.cov[name] = n
        if n < least:
            self.violation('floor ' + name, '%s: %d analysed, at least %d expected' % (name, n, least))

    def finish(self):
        kf = {}
        path = os.path.join(V, 'known_findings.json')
        if os.path.exists(path):
            for e in json.load(open(path))['findings']:
                if e['property'] == self.pid:
                    kf[e['key']] = e
        new = []
        known = []
        for k, (what, where) in self.viol.items():
            (known if k in kf else new).append((k, what, where))
        for k, what, where in known:
            print('KNOWN-FINDING: property=%s %s' % (self.pid, kf[k]['what']))
        rp = os.path.join('evidence', 'replay', '%s.txt' % self.pid)
        os.makedirs(os.path.join(V, 'evidence', 'replay'), exist_ok=True)
        with open(os.path.join(V, rp), 'w') as f:
            for k, what, where in new:
                f.write('property %s\nkey: %s\nwhat: %s\nwhere: %s\n\n' % (self.pid, k, what, where))
        for k, what, where in new[:40]:
            print('%s: %s [%s] (key: %s)' % (self.pid, what, where or '-', k))
        cov = dict(self.cov)
        cov.update(self.counts)
        cov['explanation'] = ' '.join(self.rules)
        cov['rule'] = ' '.join(self.rules)
        cov['analysed_functions'] = len(self.analysed)
        cov['functions'] = sorted(self.analysed)[:80]
        cov['samples'] = self.samples
        cov['checker_cmd'] = 'python3 check.py %s' % self.pid
        cov['trusted_base'] = TRUSTED
        cov['known_findings'] = [k for k, _, _ in known]
        ev = {'property': self.pid, 'tier': self.tier if self.tier in ('quick', 'thorough') else 'quick', 'seed': self.seed, 'level': 'other',
              'coverage': cov, 'assumptions': self.assume, 'wall_s': round(time.time() - self.t0, 2), 'violations': len(new)}
        with open(os.path.join(V, 'evidence', self.pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        if new:
            print('VIOLATION property=%s replay=%s' % (self.pid, rp))
            return 1
        print('%s: held; %d obligations discharged in %d functions, %.1f s' % (self.pid, self.counts['discharged'], len(self.analysed), time.time() - self.t0))
        return 0


def merge(c, viol, cov):
    """results of a Check that ran in a worker"""
    counts, samples, analysed = cov
    for k, (what, where) in viol.items():
        c.violation(k, what, where)
    for k, v in counts.items():
        c.counts[k] = c.counts.get(k, 0) + v
    c.samples = (c.samples + samples)[:12]
    c.analysed.update(analysed)


TRUSTED = ['rustc nightly front end and MIR construction (the driver reads MIR after borrow checking)',
           'the models of std / dependency functions in pq/models.py',
           'the abstract interpreter in pq/core.py']


def main(argv):
    pid = argv[1]
    import importlib
    c = Check(pid)
    try:
        m = importlib.import_module('pq.checks.' + pid.lower())
        m.check(c)
    except SystemExit:
        raise
    except Exception:
        traceback.print_exc()
        c.violation('analysis-failed', 'the analysis did not complete: ' + traceback.format_exc(limit=3)[-600:].replace('\n', ' | '))
    return c.finish()
