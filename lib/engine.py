"""Engine of the checks: scratch build of /repo, TLC runs, replay shards, verdict, evidence.

Every check follows the same pipeline
  1. copy /repo's working tree to a scratch directory and build its extensions there,
  2. model-check the specification (exhaustively, small constants) and let TLC generate
     behaviours of it (seeded simulation or exhaustive enumeration),
  3. replay the behaviours into the built code and compare every observable after every
     step with the one the specification prescribes; or record traces of the code and
     let TLC decide whether they are behaviours of the specification,
  4. report.
"""
import glob, hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
PY = '/opt/venv/bin/python'
CACHE = os.path.join(VERIF, '.cache')
NCPU = os.cpu_count() or 4


class MachineryError(Exception):
    pass


def base_env():
    e = {k: v for k, v in os.environ.items() if not k.startswith('PYTHON')}
    e.update(PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', PYTHONNOUSERSITE='1',
             OPENBLAS_NUM_THREADS='1', OMP_NUM_THREADS='1', MPLBACKEND='Agg',
             LANG=os.environ.get('LANG', 'C.UTF-8'))
    return e


# ---------------------------------------------------------------- scratch build
def _ext_key(tree):
    h = hashlib.sha256()
    for pat in ('**/*.pyx', '**/*.pxd', 'setup.py'):
        for f in sorted(glob.glob(os.path.join(tree, pat), recursive=True)):
            h.update(os.path.relpath(f, tree).encode() + b'\0')
            h.update(open(f, 'rb').read())
    try:
        h.update(open('/proc/cpuinfo', 'rb').read().split(b'flags')[1].split(b'\n')[0])
    except Exception:
        pass
    return h.hexdigest()[:24]


def build_repo(scratch):
    """Copy /repo's working tree (no build products) and build its extensions."""
    tree = os.path.join(scratch, 'tree')
    ign = shutil.ignore_patterns('*.so', '*.c', '__pycache__', 'build', '.git', '*.pyc', '*.html')
    shutil.copytree(REPO, tree, ignore=ign, symlinks=True)
    key = _ext_key(tree)
    cdir = os.path.join(CACHE, 'ext-' + key)
    env = base_env()
    env['PYTHONPATH'] = tree
    if not os.path.isdir(cdir):
        p = subprocess.run([PY, 'setup.py', 'build_ext', '--inplace', '-j2'], cwd=tree, env=env,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=600)
        if p.returncode:
            raise MachineryError('building the extensions failed:\n' + p.stdout.decode()[-3000:])
        sos = glob.glob(os.path.join(tree, 'funpy', '**', '*.so'), recursive=True)
        try:  # keep for the next check of the same content
            tmp = tempfile.mkdtemp(dir=_mk(CACHE))
            for s in sos:
                d = os.path.join(tmp, os.path.relpath(s, tree))
                os.makedirs(os.path.dirname(d), exist_ok=True)
                shutil.copy2(s, d)
            os.rename(tmp, cdir)
        except OSError:
            shutil.rmtree(tmp, ignore_errors=True)
    else:
        for s in glob.glob(os.path.join(cdir, '**', '*.so'), recursive=True):
            shutil.copy2(s, os.path.join(tree, os.path.relpath(s, cdir)))
    return tree


def _mk(d):
    os.makedirs(d, exist_ok=True)
    return d


# ---------------------------------------------------------------- TLC
STATS = re.compile(r'(\d[\d,]*) states generated(?: \([^)]*\))?, (\d[\d,]*) distinct states found')
SIMST = re.compile(r'The number of states generated: (\d[\d,]*)')


class TLCResult:
    def __init__(self, name, rc, out):
        self.name, self.rc, self.out = name, rc, out
        self.generated = self.distinct = 0
        for m in STATS.finditer(out):
            self.generated, self.distinct = (int(x.replace(',', '')) for x in m.groups())
        m = SIMST.search(out)
        if m:
            self.generated = self.distinct = int(m.group(1).replace(',', ''))

    def lines(self, tag):
        """The JSON payloads of PrintT(tag o ToJson(..)) lines."""
        res = []
        pre = '"' + tag + ' '
        for l in self.out.splitlines():
            if l.startswith(pre):
                res.append(json.loads(json.loads(l)[len(tag) + 1:]))
        return res


def tlc(name, module, cfg, scratch, mode='check', workers=1, num=100, depth=30, seed=1,
        timeout=600, files=None, heap='2g', expect_ok=True):
    """Run TLC on spec/<module>.tla with the given cfg text."""
    d = os.path.join(scratch, 'tlc-' + name)
    os.makedirs(d, exist_ok=True)
    for f in glob.glob(os.path.join(VERIF, 'spec', '*.tla')):
        t = os.path.join(d, os.path.basename(f))
        if not os.path.exists(t):
            os.symlink(f, t)
    for fn, text in (files or {}).items():
        with open(os.path.join(d, fn), 'w') as fh:
            fh.write(text)
    with open(os.path.join(d, module + '.cfg'), 'w') as fh:
        fh.write(cfg)
    args = ['java', '-XX:+UseParallelGC', '-XX:ParallelGCThreads=2', '-Xmx' + heap, '-Xss64m',
            '-Djava.io.tmpdir=' + d,
            '-cp', '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar',
            'tlc2.TLC', '-workers', str(workers), '-metadir', os.path.join(d, 'meta'),
            '-config', module + '.cfg']
    if mode == 'sim':
        args += ['-seed', str(seed), '-simulate', 'num=%d' % num, '-depth', str(depth)]
    args.append(module + '.tla')
    try:
        p = subprocess.run(args, cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           timeout=timeout, env=base_env())
        rc, out = p.returncode, p.stdout.decode(errors='replace')
    except subprocess.TimeoutExpired as e:
        raise MachineryError('TLC job %s exceeded %d s' % (name, timeout))
    res = TLCResult(name, rc, out)
    if expect_ok and rc != 0:
        keep = [l for l in out.splitlines() if not l.startswith(('Parsing', 'Semantic', 'Linting', '"BEHAVIOUR'))]
        raise MachineryError('TLC job %s failed (rc %d):\n%s' % (name, rc, '\n'.join(keep)[-4000:]))
    return res


# ---------------------------------------------------------------- replay in the real code
def replay(adapter, items, tree, scratch, shards=None, timeout=420, params=None, tag=''):
    """Run harness/<adapter>.py on the items in several processes; list of results in order."""
    shards = max(1, min(shards or NCPU, (len(items) + 3) // 4))
    d = tempfile.mkdtemp(prefix='replay-%s%s-' % (adapter, tag), dir=scratch)
    env = base_env()
    env['PYTHONPATH'] = tree + os.pathsep + os.path.join(VERIF, 'harness')
    procs = []
    for s in range(shards):
        fi, fo = os.path.join(d, 'in%d' % s), os.path.join(d, 'out%d' % s)
        with open(fi, 'w') as fh:
            for i in range(s, len(items), shards):
                fh.write(json.dumps({'i': i, 'item': items[i]}) + '\n')
        wd = _mk(os.path.join(d, 'wd%d' % s))
        procs.append((s, fo, subprocess.Popen(
            [PY, '-W', 'ignore', os.path.join(VERIF, 'harness', adapter + '.py'), fi, fo, json.dumps(params or {})],
            cwd=wd, env=env, stdout=open(os.path.join(d, 'log%d' % s), 'w'), stderr=subprocess.STDOUT,
            start_new_session=True)))
    end = time.time() + timeout
    results = [None] * len(items)
    for s, fo, p in procs:
        hung = False
        try:
            p.wait(max(1, end - time.time()))
        except subprocess.TimeoutExpired:
            hung = True
            os.killpg(p.pid, signal.SIGKILL)
            p.wait()
        last = None
        if os.path.exists(fo):
            for l in open(fo):
                try:
                    r = json.loads(l)
                except ValueError:
                    continue
                if 'begin' in r:
                    last = r['begin']
                else:
                    results[r['i']] = r
                    last = None
        if last is not None:   # died or hung in the middle of an item
            log = open(os.path.join(d, 'log%d' % s)).read()[-1500:]
            why = 'no termination' if hung else 'process died (rc %s)' % p.returncode
            results[last] = {'i': last, 'fails': [{'op': '*', 'clause': 'crash', 'detail': why + ' ' + log}], 'steps': 0}
        elif hung:
            pass
        elif p.returncode != 0:
            raise MachineryError('replay harness %s failed:\n%s' % (adapter, open(os.path.join(d, 'log%d' % s)).read()[-4000:]))
    return results


# ---------------------------------------------------------------- known findings
def known_findings():
    """lines 'known: property=<id> match=<regex> :: <what>' of known_findings.txt"""
    res = []
    fn = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(fn):
        for l in open(fn):
            m = re.match(r'known: property=(\S+) match=(.*?) :: (.*)', l.rstrip('\n'))
            if m:
                res.append((m.group(1), re.compile(m.group(2)), m.group(3)))
    return res
