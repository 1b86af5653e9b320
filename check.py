#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] [--replay FILE]

exit 0: the property held on everything explored (KNOWN-FINDING lines for listed findings)
exit 1: VIOLATION property=<id> replay=<path>
other : the machinery itself failed
"""
import argparse, json, os, shutil, signal, sys, tempfile, time, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'lib'))
from engine import *
import checks


class Ctx:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.quick = tier == 'quick'
        self.scratch = tempfile.mkdtemp(prefix='funpy-verif-%s-' % pid, dir=os.environ.get('TMPDIR', '/tmp'))
        self.pool = ThreadPoolExecutor(max_workers=NCPU + 2)
        self._tree = self.pool.submit(build_repo, self.scratch)
        self.states = self.transitions = self.behaviours = self.validated = self.blocked = 0
        self.opcount, self.samples, self.fails, self.assumptions = {}, [], [], []
        self.notes = {}
        self.jobs = []

    @property
    def tree(self):
        return self._tree.result()

    def pick(self, quick, thorough):
        return quick if self.quick else thorough

    # -- exhaustive model checking of a specification; runs in the background
    def model_check(self, name, module, cfg, workers=4, timeout=800, heap='4g', min_states=1):
        def job():
            r = tlc(name, module, cfg, self.scratch, workers=workers, timeout=timeout, heap=heap)
            if r.distinct < min_states:
                raise MachineryError('vacuous model checking run %s: %d states' % (name, r.distinct))
            return r
        f = self.pool.submit(job)
        self.jobs.append((name, f))
        return f

    # -- behaviours of a specification
    def generate(self, name, module, cfg, num, depth=60, procs=None, mode='sim', workers=1, tag='BEHAVIOUR',
                 timeout=600, files=None, heap='2g'):
        """Futures of behaviour lists; simulation is split over several TLC processes."""
        if mode == 'check':
            return [self.pool.submit(lambda: tlc(name, module, cfg, self.scratch, workers=workers, timeout=timeout,
                                                 files=files, heap=heap))]
        procs = procs or self.pick(4, 7)
        per = (num + procs - 1) // procs
        return [self.pool.submit(tlc, '%s-%d' % (name, s), module, cfg, self.scratch, 'sim', 1, per, depth,
                                 self.seed * 1000 + 17 * s + 1, timeout, files, heap) for s in range(procs)]

    def collect(self, futures, tag='BEHAVIOUR', limit=None):
        res = []
        for f in futures:
            r = f.result()
            self.states += r.distinct
            self.transitions += r.generated
            res += r.lines(tag)
        if not res:
            raise MachineryError('the specification produced no behaviour')
        return res[:limit] if limit else res

    def replay(self, adapter, items, owns=lambda f: True, params=None, timeout=500, tag='', sample=1, shards=None):
        """Replay behaviours in the code; failures that belong to this property are recorded."""
        rs = replay(adapter, items, self.tree, self.scratch, params=params, timeout=timeout, tag=tag, shards=shards)
        for it, r in zip(items, rs):
            if r is None:
                continue
            self.behaviours += 1
            for k, v in r.get('ops', {}).items():
                self.opcount[k] = self.opcount.get(k, 0) + v
            mine = [f for f in r['fails'] if owns(f)]
            if mine:
                self.fails.append({'adapter': adapter, 'params': params or {}, 'item': it, 'fails': mine})
            elif r['fails']:
                self.blocked += 1
            else:
                self.validated += 1
        for it in items[:sample]:
            self.samples.append({'replayed': adapter, 'behaviour': it})
        missing = sum(r is None for r in rs)
        if missing:
            self.notes['not_replayed'] = self.notes.get('not_replayed', 0) + missing
        return rs

    # -- traces of the code, decided by TLC
    def validate(self, name, module, cfg, traces, fname='traces.json', timeout=600, workers=1, files=None, heap='4g',
                 adapter=None, params=None, chunk=None, sample=1, owns=lambda f: True):
        """traces: list of (payload, origin item).  The trace specification prints one VERDICT line
        {"t": index (1-based), "v": "ok" or the failing clause, "at": position} per trace."""
        n = len(traces)
        if not n:
            raise MachineryError('no traces for ' + name)
        chunk = chunk or max(1, (n + NCPU - 1) // NCPU)
        fs = []
        for c in range(0, n, chunk):
            part = [t[0] for t in traces[c:c + chunk]]
            fl = dict(files or {})
            fl[fname] = json.dumps(part)
            fs.append((c, len(part), self.pool.submit(tlc, '%s-%d' % (name, c), module, cfg, self.scratch, 'check', workers,
                                                      0, 0, 1, timeout, fl, heap)))
        for c, k, f in fs:
            r = f.result()
            self.states += r.distinct
            self.transitions += r.generated
            vs = {v['t']: v for v in r.lines('VERDICT')}
            for t in range(1, k + 1):
                if t not in vs:
                    raise MachineryError('trace specification %s gave no verdict for trace %d' % (module, c + t))
                v = vs[t]
                if v['v'] == 'ok':
                    self.validated += 1
                else:
                    rec = {'op': v.get('op', 'trace'), 'clause': v['v'], 'detail': 'position %s of the trace' % v.get('at')}
                    if owns(rec):
                        self.fails.append({'adapter': adapter, 'params': params or {}, 'item': traces[c + t - 1][1],
                                           'trace': traces[c + t - 1][0], 'fails': [rec]})
                    else:
                        self.blocked += 1
        for t in traces[:sample]:
            self.samples.append({'trace_validated_by': module, 'trace': t[0]})

    def finish_jobs(self):
        for name, f in self.jobs:
            r = f.result()
            self.states += r.distinct
            self.transitions += r.generated
            self.notes.setdefault('model_checking', {})[name] = {'distinct_states': r.distinct, 'generated': r.generated}
        self.jobs = []


def shorten(x, n=2500):
    s = json.dumps(x)
    return x if len(s) <= n else s[:n] + '...'


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('pid')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'), choices=['quick', 'thorough'])
    ap.add_argument('--replay')
    a = ap.parse_args()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    ctx = Ctx(a.pid, a.tier, seed)
    rc = 2
    try:
        if a.replay:
            d = json.load(open(a.replay))
            rs = replay(d['adapter'], [d['item']], ctx.tree, ctx.scratch, params=d['params'])
            print(json.dumps(rs[0], indent=1))
            rc = 1 if rs[0]['fails'] else 0
            return rc
        chk = checks.CHECKS[a.pid]
        chk['run'](ctx)
        ctx.finish_jobs()
        rc = report(ctx, chk, t0)
    except MachineryError as e:
        print('MACHINERY: %s' % e, file=sys.stderr)
    except Exception:
        traceback.print_exc()
    finally:
        ctx.pool.shutdown(wait=False, cancel_futures=True)
        shutil.rmtree(ctx.scratch, ignore_errors=True)
    return rc


def report(ctx, chk, t0):
    kf = [k for k in known_findings() if k[0] == ctx.pid]
    seen, new = {}, []
    for f in ctx.fails:
        text = json.dumps(f['fails']) + json.dumps(f['item'])
        hit = [k for k in kf if k[1].search(text)]
        if hit:
            seen[hit[0][2]] = seen.get(hit[0][2], 0) + 1
        else:
            new.append(f)
    for w, n in seen.items():
        print('KNOWN-FINDING: property=%s %s (%d cases)' % (ctx.pid, w, n))
    out = os.path.join(VERIF, 'out', ctx.pid)
    shutil.rmtree(out, ignore_errors=True)
    path = None
    if new:
        new.sort(key=lambda f: len(json.dumps(f['item'])))
        os.makedirs(out, exist_ok=True)
        for i, f in enumerate(new[:5]):
            p = os.path.join(out, 'violation-%d.json' % i)
            json.dump(f, open(p, 'w'), indent=1)
            path = path or p
        for f in new[:8]:
            r = f['fails'][0]
            print('  %s/%s: %s %s' % (r['op'], r['clause'], r['detail'][:400], json.dumps(r.get('rec', ''))[:300]))
    cov = {'states': ctx.states, 'transitions': ctx.transitions,
           'traces_validated_against_impl': ctx.validated,
           'behaviours_replayed': ctx.behaviours, 'blocked_by_other_property': ctx.blocked,
           'operations': ctx.opcount, 'samples': [shorten(s) for s in ctx.samples[:4]]}
    cov.update(ctx.notes)
    ev = {'property': ctx.pid, 'tier': ctx.tier, 'seed': ctx.seed, 'level': chk.get('level', 'model_checking'),
          'coverage': cov, 'violations': len(new), 'wall_s': round(time.time() - t0, 1),
          'assumptions': chk.get('assumptions', []) + ctx.assumptions}
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', ctx.pid + '.json'), 'w') as fh:
        json.dump(ev, fh, indent=1)
    if new:
        print('VIOLATION property=%s replay=%s' % (ctx.pid, path))
        return 1
    if not ctx.validated:
        print('MACHINERY: nothing was validated (%d blocked)' % ctx.blocked, file=sys.stderr)
        return 0 if ctx.blocked else 2
    print('OK property=%s: %d behaviours/traces validated, %d states, %.0f s'
          % (ctx.pid, ctx.validated, ctx.states, time.time() - t0))
    return 0


if __name__ == '__main__':
    rc = main()
    sys.stdout.flush()
    os._exit(rc)
