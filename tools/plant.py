#!/usr/bin/env python3
"""Plant bugs: plant.py FILE.py [ids..]   FILE.py defines BUGS = [dict(id, property, edits=[(path, old, new)], demo, needs, breaks)]
For each: scratch copy of /repo, apply, build, stable tests, demo on both trees, the property's quick check; kept
under seeded/ when it is a valid bug (passes the tests, demo distinguishes), whether or not it is caught.
plant.py --recheck [ids..] reruns the checks on the kept ones."""
import json, os, shutil, subprocess, sys, tempfile, fcntl
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', PYTHONNOUSERSITE='1', OPENBLAS_NUM_THREADS='1',
           OMP_NUM_THREADS='1', MPLBACKEND='Agg')
DEMO_SH = '#!/bin/bash\nexport PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 OPENBLAS_NUM_THREADS=1 MPLBACKEND=Agg\n' \
          'exec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n'


def sh(cmd, cwd, tree, timeout=900):
    p = subprocess.run(cmd, cwd=cwd, env=dict(ENV, PYTHONPATH=tree), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    return p.returncode, p.stdout.decode(errors='replace')


def tests(tree, tmp):
    x = os.path.join(tmp, 'junit.xml')
    sh([PY, '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '--rootdir=' + tree, '--timeout=300', '--continue-on-collection-errors',
        '-o', 'junit_family=xunit2', '--junitxml=' + x], tree, tree)
    o = os.path.join(tmp, 'o.json')
    sh([PY, '/opt/vp/results.py', o, 'junit:' + x], tree, tree)
    return set(json.load(open('/opt/vp/BASELINE.json'))['stable']) - set(json.load(open(o))['passed'])


def note(bid, text):
    f = os.path.join(V, 'tools', 'caught.json')
    with open(f + '.lock', 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        d = json.load(open(f)) if os.path.exists(f) else {}
        d[bid] = text
        json.dump(d, open(f, 'w'), indent=1, sort_keys=True)


def run_checks(tree, props, bid):
    res = []
    for p in props:
        rc, o = sh([sys.executable, os.path.join(V, 'check.py'), p, '--tier', 'quick'], V, '', 1000) if False else \
            (lambda q: (q.returncode, q.stdout.decode(errors='replace')))(subprocess.run(
                [sys.executable, os.path.join(V, 'check.py'), p, '--tier', 'quick'], cwd=V,
                env=dict(os.environ, VERIF_REPO=tree, VERIF_SEED='1'), stdout=subprocess.PIPE, stderr=subprocess.STDOUT))
        res.append((p, rc, o))
    c = [p for p, rc, o in res if rc == 1 and 'VIOLATION property=' + p in o]
    note(bid, ', '.join(c) if c else 'MISSED by ' + ', '.join('%s(rc %d)' % (p, rc) for p, rc, _ in res))
    return res


def one(b):
    tmp = tempfile.mkdtemp(prefix='plant-', dir='/tmp')
    try:
        tree = os.path.join(tmp, 'tree')
        subprocess.check_call(['cp', '-a', '/repo', tree])
        pyx = False
        for path, old, new in b['edits']:
            f = os.path.join(tree, path)
            s = open(f).read()
            if s.count(old) != 1:
                return b['id'], 'INVALID: edit of %s matches %d times: %s' % (path, s.count(old), old[:60])
            open(f, 'w').write(s.replace(old, new))
            pyx |= path.endswith(('.pyx', '.pxd'))
        d = os.path.join(tmp, 'd')
        os.makedirs(d)
        open(os.path.join(d, 'patch.diff'), 'w').write(subprocess.check_output(['git', 'diff'], cwd=tree, text=True))
        open(os.path.join(d, 'demo.sh'), 'w').write(DEMO_SH)
        os.chmod(os.path.join(d, 'demo.sh'), 0o755)
        open(os.path.join(d, 'demo.py'), 'w').write(b['demo'].lstrip('\n'))
        json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(os.path.join(d, 'meta.json'), 'w'), indent=1)
        if pyx:
            for root, _, fs in os.walk(os.path.join(tree, 'funpy')):
                for x in fs:
                    if x.endswith('.so'):
                        os.remove(os.path.join(root, x))
            rc, o = sh([PY, 'setup.py', 'build_ext', '--inplace'], tree, tree)
            if rc:
                return b['id'], 'INVALID: does not build\n' + o[-1500:]
        rc0, o0 = sh(['bash', os.path.join(d, 'demo.sh')], '/repo', '/repo', 300)
        rc1, o1 = sh(['bash', os.path.join(d, 'demo.sh')], tree, tree, 300)
        if rc0:
            return b['id'], 'INVALID: demo fails on the unchanged tree\n' + o0[-1500:]
        if not rc1:
            return b['id'], 'INVALID: demo passes on the changed tree\n' + o1[-500:]
        bad = tests(tree, tmp)
        if bad:
            return b['id'], 'INVALID: fails tests ' + ' '.join(sorted(bad)[:4])
        dst = os.path.join(V, 'seeded', b['id'])
        shutil.rmtree(dst, ignore_errors=True)
        shutil.copytree(d, dst)
        res = run_checks(tree, [b['property']] + b.get('also', []), b['id'])
        return b['id'], '\n'.join('   %s rc %d: %s' % (p, rc, (o[-700:] if rc != 0 or True else '')) for p, rc, o in res)
    except Exception as e:
        return b['id'], 'INVALID: %r' % e
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def recheck(bid):
    tmp = tempfile.mkdtemp(prefix='plant-', dir='/tmp')
    try:
        tree = os.path.join(tmp, 'tree')
        subprocess.check_call(['cp', '-a', '/repo', tree])
        subprocess.check_call(['git', 'apply', os.path.join(V, 'seeded', bid, 'patch.diff')], cwd=tree)
        p = json.load(open(os.path.join(V, 'seeded', bid, 'meta.json')))['property']
        res = run_checks(tree, [p], bid)
        return bid, '\n'.join('   %s rc %d: %s' % (p, rc, o[-400:]) for p, rc, o in res)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


if __name__ == '__main__':
    if sys.argv[1] == '--recheck':
        ids = sys.argv[2:] or sorted(os.listdir(os.path.join(V, 'seeded')))
        jobs, fn = ids, recheck
    else:
        ns = {}
        exec(open(sys.argv[1]).read(), ns)
        jobs, fn = [b for b in ns['BUGS'] if not sys.argv[2:] or b['id'] in sys.argv[2:]], one
    with ThreadPoolExecutor(2) as ex:
        for i, r in ex.map(fn, jobs):
            print('==', i, '\n', r, flush=True)
