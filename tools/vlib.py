"""Common machinery: building the drivers from /repo's working tree, running them, trace
validation and model checking with TLC, reporting."""
import hashlib
import json
import os
import random
import re
import resource
import signal
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('Z5_REPO', '/repo')
SPEC = os.path.join(VERIF, 'spec')
DRV = os.path.join(VERIF, 'drivers')
PY = '/opt/z5env/bin/python'
JAR = '/opt/veriftools/tla/tla2tools.jar'
NCPU = max(2, min(8, os.cpu_count() or 2))
DEFS = ['-DLIBDEFLATE_DLL', '-DWITH_BLOSC', '-DWITH_BZIP2', '-DWITH_LIBDEFLATE', '-DWITH_LZ4', '-DWITH_XZ',
        '-DWITH_ZLIB', '-DWITH_ZSTD']
LIBS = ['-lblosc', '-ldeflate', '-lbz2', '-llzma', '-llz4', '-lzstd', '-lz', '-lpthread']


class Found(Exception):
    """violations were confirmed: nothing else needs to be looked at"""


class HarnessError(Exception):
    pass


def log(*a):
    print('[%6.1fs]' % (time.time() - T0), *a, file=sys.stderr, flush=True)


T0 = time.time()

# ------------------------------------------------------------------ building


def _hash(paths, extra=''):
    h = hashlib.sha256(extra.encode())
    for root in paths:
        if os.path.isfile(root):
            files = [root]
        else:
            files = sorted(os.path.join(d, f) for d, _, fs in os.walk(root) for f in fs
                           if f.endswith(('.hxx', '.cxx', '.h', '.cpp', '.hpp', '.in', '.c')) or d.endswith('z5py'))
        for f in files:
            h.update(f.encode())
            with open(f, 'rb') as fh:
                h.update(fh.read())
    return h.hexdigest()[:16]


def builddir(name, paths, extra=''):
    """content-addressed build folder (git-ignored); returns (path, complete?)"""
    d = os.path.join(VERIF, 'build', name + '-' + _hash(paths, extra))
    done = os.path.exists(os.path.join(d, '.done'))
    if not done:
        # keep the development cache small
        base = os.path.join(VERIF, 'build')
        if os.path.isdir(base):
            old = sorted((os.path.getmtime(os.path.join(base, o)), o) for o in os.listdir(base)
                         if o.startswith(name + '-'))
            for _, o in old[:-6]:
                shutil.rmtree(os.path.join(base, o), ignore_errors=True)
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
    return d, done


def compile_all(cmds, what):
    """run compiler commands in parallel; each is a list of alternatives (argv)"""
    t = time.time()
    procs = []
    for alts in cmds:
        procs.append([alts, 0, None])
    pending = list(procs)
    running = []
    while pending or running:
        while pending and len(running) < NCPU:
            p = pending.pop(0)
            p[2] = subprocess.Popen(p[0][p[1]], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)
            running.append(p)
        p = running.pop(0)
        err = p[2].communicate()[1]
        if p[2].returncode != 0:
            p[1] += 1
            if p[1] >= len(p[0]):
                for q in running:
                    q[2].kill()
                raise HarnessError('compile of %s failed: %s\n%s' % (what, ' '.join(p[0][-1]),
                                                                     err.decode(errors='replace')[-3000:]))
            pending.append(p)
    log('built', what, 'in %.1fs' % (time.time() - t))


def alternatives(args):
    return [['clang++'] + args, ['g++'] + args]


DTYPES = [('int8_t', 'int16_t', 'zops_i8'), ('int32_t', 'int64_t', 'zops_i32'), ('uint8_t', 'uint16_t', 'zops_u8'),
          ('uint32_t', 'uint64_t', 'zops_u32'), ('float', 'double', 'zops_f'),
          ('std::complex<float>', 'std::complex<double>', 'zops_c')]


S3FLAGS = ['-DWITH_S3', '-I' + os.path.join(DRV, 'fakeaws')]


def build_zdrv(san='address', s3=False):
    """s3: with the S3 back end, on a stand-in for the SDK"""
    d, done = builddir('zdrv-' + (san or 'plain') + ('-s3' if s3 else ''), [os.path.join(REPO, 'include'), DRV])
    exe = os.path.join(d, 'zdrv')
    if done:
        return exe
    base = ['-w', '-O0', '-g1', '-std=c++20', '-fno-omit-frame-pointer'] + DEFS + \
           ['-I' + os.path.join(REPO, 'include'), '-I' + DRV]
    if san:
        base += ['-fsanitize=' + san]
    cmds, objs = [], []
    for a, b, f in DTYPES:
        o = os.path.join(d, f + '.o')
        objs.append(o)
        cmds.append(alternatives(base + ['-DZT1=' + a, '-DZT2=' + b, '-DZFN=' + f, '-c',
                                         os.path.join(DRV, 'zops.cxx'), '-o', o]))
    o = os.path.join(d, 'zmain.o')
    objs.append(o)
    cmds.append(alternatives(base + (S3FLAGS if s3 else []) + ['-c', os.path.join(DRV, 'zmain.cxx'), '-o', o]))
    compile_all(cmds, 'zdrv')
    link = (['-fsanitize=' + san] if san else []) + objs + ['-o', exe] + LIBS
    compile_all([alternatives(link)], 'zdrv link')
    open(os.path.join(d, '.done'), 'w').close()
    return exe


def background(f):
    """-> a future; models and other drivers run meanwhile"""
    import concurrent.futures
    ex = concurrent.futures.ThreadPoolExecutor(1)
    r = ex.submit(f)
    ex.shutdown(wait=False)
    return r


def build_zdrv_s3(san='address'):
    """zdrv with both back ends -> (program, whether it has the object store); a change of the tree can need
    more of the SDK than the stand-in has, then the files are checked alone"""
    try:
        return build_zdrv(san, True), True
    except HarnessError as e:
        log('no S3 back end: %s' % str(e)[-300:])
        return build_zdrv(san), False


def build_cxx(name, sources, san=None, opt='-O0', extra=(), libs=True, shared=False):
    """one program (or shared library) from driver sources"""
    srcs = [os.path.join(DRV, s) for s in sources]
    d, done = builddir(name, [os.path.join(REPO, 'include'), DRV], ' '.join([san or '', opt] + list(extra)))
    exe = os.path.join(d, name + ('.so' if shared else ''))
    if done:
        return exe
    args = ['-w', opt, '-g1', '-std=c++20', '-fno-omit-frame-pointer'] + DEFS + list(extra) + \
        ['-I' + os.path.join(REPO, 'include'), '-I' + DRV]
    if san:
        args += ['-fsanitize=' + san]
    if shared:
        args += ['-shared', '-fPIC']
    objs, cmds = [], []
    for s in srcs:
        o = os.path.join(d, os.path.basename(s) + '.o')
        objs.append(o)
        cmds.append(alternatives(args + (['-fPIC'] if shared else []) + ['-c', s, '-o', o]))
    compile_all(cmds, name)
    compile_all([alternatives((['-fsanitize=' + san] if san else []) + (['-shared'] if shared else []) + objs +
                              ['-o', exe] + (LIBS if libs else []) + (['-ldl'] if shared else []))], name + ' link')
    open(os.path.join(d, '.done'), 'w').close()
    return exe


def build_py(s3=False):
    """the z5py package with the extension module compiled from the working tree (s3: on the stand-in SDK)"""
    srcdir = os.path.join(REPO, 'src/python')
    d, done = builddir('z5py' + ('-s3' if s3 else ''), [os.path.join(REPO, 'include'), os.path.join(srcdir, 'lib'), os.path.join(srcdir, 'module')] + ([os.path.join(DRV, 'fakeaws')] if s3 else []))
    if done:
        return d
    import nanobind
    import sysconfig
    nb = os.path.dirname(nanobind.__file__)
    inc = ['-I' + sysconfig.get_paths()['include'], '-I' + os.path.join(nb, 'include'),
           '-isystem', os.path.join(nb, 'ext/robin_map/include')]
    base = ['-w', '-O0', '-g0', '-std=c++20', '-fPIC', '-fvisibility=hidden'] + DEFS + (S3FLAGS if s3 else [])
    cmds, objs = [], []
    lib = os.path.join(srcdir, 'lib')
    srcs = [f for f in os.listdir(lib) if f.endswith('.cxx') and not f.startswith('test')]
    srcs.sort(key=lambda f: f != 'dataset.cxx')
    for f in srcs:
        o = os.path.join(d, f + '.o')
        objs.append(o)
        cmds.append(alternatives(base + inc + ['-I' + os.path.join(REPO, 'include'), '-I' + os.path.join(srcdir, 'include'),
                                               '-I' + lib, '-c', os.path.join(lib, f), '-o', o]))
    o = os.path.join(d, 'nb.o')
    objs.append(o)
    cmds.append(alternatives(base + inc + ['-fno-strict-aliasing', '-DNDEBUG', '-DNB_COMPACT_ASSERTIONS', '-c',
                                           os.path.join(nb, 'src/nb_combined.cpp'), '-o', o]))
    compile_all(cmds, 'z5py')
    pkg = os.path.join(d, 'z5py')
    shutil.copytree(os.path.join(srcdir, 'module/z5py'), pkg,
                    ignore=shutil.ignore_patterns('__pycache__', '*.so'))
    suffix = sysconfig.get_config_var('EXT_SUFFIX')
    compile_all([alternatives(['-shared'] + objs + ['-o', os.path.join(pkg, '_z5py' + suffix)] + LIBS)], 'z5py link')
    if not os.path.exists(os.path.join(pkg, '_version.py')):
        with open(os.path.join(pkg, '_version.py'), 'w') as f:
            f.write('__version__ = "0.0.0"\n')
    open(os.path.join(d, '.done'), 'w').close()
    return d


# ------------------------------------------------------------------- scratch

_scratch = []


def scratch():
    """a scratch directory below /tmp (or $TMPDIR), removed at exit"""
    d = tempfile.mkdtemp(prefix='z5v-')
    _scratch.append(d)
    return d


def cleanup():
    for d in _scratch:
        if os.path.basename(d).startswith('z5v-'):
            subprocess.run(['chmod', '-R', 'u+rwX', d], stderr=subprocess.DEVNULL)
            shutil.rmtree(d, ignore_errors=True)
    _scratch.clear()


def env(**kw):
    e = dict(os.environ)
    e.update(ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:max_allocation_size_mb=4000',
             UBSAN_OPTIONS='halt_on_error=1:exitcode=98', PYTHONDONTWRITEBYTECODE='1', LC_ALL='C.UTF-8')
    e.update({k: str(v) for k, v in kw.items()})
    return e


# --------------------------------------------------------------------- TLC


def tlc(module, cfg=None, workers=NCPU, extra=(), envv=None, timeout=800, heap='8g', cwd=None, quiet=True, dump=None):
    """run TLC; returns (returncode, output)"""
    meta = tempfile.mkdtemp(prefix='tlc-', dir=scratch())
    cmd = ['java', '-XX:+UseParallelGC', '-Xmx' + heap, '-Xss64m', '-Dtlc2.tool.fp.FPSet.impl=tlc2.tool.fp.OffHeapDiskFPSet',
           '-cp', JAR + ':' + tlc_classpath(), 'tlc2.TLC',
           '-workers', str(workers), '-metadir', meta, '-noGenerateSpecTE', '-config', (cfg or module) + '.cfg']
    cmd += list(extra) + [module + '.tla']
    e = env(**(envv or {}))
    try:
        p = subprocess.run(cmd, cwd=cwd or SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    except subprocess.TimeoutExpired as ex:
        return 124, (ex.stdout or b'').decode(errors='replace')
    return p.returncode, p.stdout.decode(errors='replace')


def evaluation_error(out):
    """(trace, event) at which TLC could not evaluate the specification, or None"""
    if 'java.lang.OutOfMemoryError' in out or 'StackOverflowError' in out or 'The behavior up to this point is' not in out:
        return None
    m = re.findall(r'/\\ t = (\d+)', out.split('The behavior up to this point is')[-1])
    n = re.findall(r'/\\ l = (\d+)', out.split('The behavior up to this point is')[-1])
    return (int(m[-1]), int(n[-1])) if m and n else None


_cp = None


def tlc_classpath():
    """the community modules jar, as the tlc launcher uses it"""
    global _cp
    if _cp is None:
        _cp = ''
        cands = [os.path.join('/opt/veriftools/tla', f) for f in os.listdir('/opt/veriftools/tla') if f.endswith('.jar')]
        _cp = ':'.join(c for c in cands if c != JAR)
    return _cp


def tlc_stats(out):
    m = re.findall(r'(\d+) states generated.*?(\d+) distinct states found', out)
    if m:
        return int(m[-1][0]), int(m[-1][1])
    m = re.findall(r'(\d+) states generated', out)
    return (int(m[-1]), int(m[-1])) if m else (0, 0)


class Stats:
    def __init__(self):
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.samples = 0
        self.events = 0
        self.ops = {}
        self.models = []

    def add_ops(self, ev):
        k = '%s:%s' % (ev.get('op'), ev.get('res', ''))
        self.ops[k] = self.ops.get(k, 0) + 1


def model_check(stats, module, cfg=None, timeout=600, workers=NCPU, envv=None, expect_violation=None, extra=()):
    """exhaustive check of a model; a failure here is a failure of the specification itself.
    expect_violation: name of the invariant that has to be violated (negative configurations)"""
    t = time.time()
    rc, out = tlc(module, cfg, timeout=timeout, workers=workers, envv=envv, extra=extra)
    gen, dist = tlc_stats(out)
    if expect_violation == 'Deadlock':
        if 'Deadlock reached' not in out:
            raise HarnessError('negative model %s/%s: no deadlock\n%s' % (module, cfg, out[-2500:]))
    elif expect_violation:
        if ('Invariant %s is violated' % expect_violation) not in out and ('property %s is violated' % expect_violation) not in out.replace('Temporal properties were violated', 'property %s is violated' % expect_violation):
            raise HarnessError('negative model %s/%s: %s was not violated\n%s' % (module, cfg, expect_violation, out[-2500:]))
    elif rc != 0 or 'No error has been found' not in out:
        raise HarnessError('model %s/%s: rc %d\n%s' % (module, cfg, rc, out[-3500:]))
    stats.states += dist
    stats.transitions += gen
    stats.models.append({'model': (cfg or module), 'distinct': dist, 'generated': gen,
                         'negative': expect_violation or '', 'wall_s': round(time.time() - t, 1)})
    log('model', cfg or module, 'ok: %d generated, %d distinct, %.1fs' % (gen, dist, time.time() - t))


def validate(stats, module, traces, cfg=None, timeout=800, keep=None, chunk=4000):
    """validate recorded traces ({id,cfg,ev}); returns the list of (trace index, event index) rejected"""
    rejected = []
    for lo in range(0, len(traces), chunk):
        part = traces[lo:lo + chunk]
        d = scratch()
        f = os.path.join(d, 'trace.json')
        with open(f, 'w') as fh:
            json.dump(part, fh)
        t = time.time()
        rc, out = tlc(module, cfg, envv={'TRACE': f}, timeout=timeout, extra=())
        bad = []
        while rc != 0 and len(bad) < 6:
            # an event the specification cannot even evaluate (a value outside its domain, such as
            # data longer than the request) is not a behaviour of the specification either
            at = evaluation_error(out)
            if at is None or at in bad:
                break
            bad.append(at)
            cut = {a: min(b for x, b in bad if x == a) for a, _ in bad}
            with open(f, 'w') as fh:
                json.dump([dict(x, ev=x['ev'][:cut[i + 1] - 1]) if i + 1 in cut else x for i, x in enumerate(part)], fh)
            rc, out = tlc(module, cfg, envv={'TRACE': f}, timeout=timeout, extra=())
        gen, dist = tlc_stats(out)
        rej = sorted(set((int(a), int(b)) for a, b in re.findall(r'<<"REJECT", (\d+), (\d+)>>', out)) | set(bad))
        if (rc != 0 or 'No error has been found' not in out) and not (bad and evaluation_error(out)):
            raise HarnessError('trace validation with %s failed (rc %d)\n%s' % (module, rc, out[-6000:]))
        want = sum(len(x['ev']) + 1 for x in part)
        if not rej and dist < want:
            # all events of all traces must have been consumed (identical states of different
            # traces cannot coincide because the trace number is part of the state)
            raise HarnessError('trace validation with %s consumed %d of %d states\n%s' % (module, dist, want, out[-2000:]))
        stats.states += dist
        stats.transitions += gen
        stats.traces += len(part)
        rejected += [(lo + a - 1, b - 1) for a, b in rej]
        log('validated %d traces, %d events with %s in %.1fs, %d rejected' %
            (len(part), want - len(part), module, time.time() - t, len(rej)))
        shutil.rmtree(d, ignore_errors=True)
    for tr in traces:
        stats.events += len(tr['ev'])
        for e in tr['ev']:
            stats.add_ops(e)
    return rejected


def simulate(module, cfg, num, depth, seed, envv=None, timeout=300, tag='GEN', workers=4):
    """behaviours generated by TLC: the spec prints <<tag, json>> for every finished behaviour"""
    rc, out = tlc(module, cfg, workers=workers, timeout=timeout, envv=envv,
                  extra=['-simulate', 'num=%d' % num, '-depth', str(depth), '-seed', str(seed)])
    res = []
    for m in re.finditer(r'<<"%s", "(.*)">>' % tag, out):
        res.append(json.loads(m.group(1).replace('\\"', '"').replace('\\\\', '\\')))
    if not res:
        raise HarnessError('simulation of %s gave nothing (rc %d)\n%s' % (module, rc, out[-3000:]))
    return res


# --------------------------------------------------------------- running zdrv

def collect(name, base, procs, count, total):
    """the events of the drivers, in the order of the scripts"""
    res = [None] * count
    end = time.time() + total
    for p, o, part, j in procs:
        late = False
        try:
            p.wait(timeout=max(1, end - time.time()))
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            p.wait()
            late = True
        err = open(os.path.join(base, 'e%d' % j), 'rb').read()[-3000:].decode(errors='replace')
        if p.returncode != 0 and not late:
            raise HarnessError('%s failed (%d): %s' % (name, p.returncode, err))
        evs, cur = [], None
        for line in open(o):
            if late and not line.endswith('\n'):
                break
            e = json.loads(line)
            if 'begin' in e:
                cur = []
                evs.append(cur)
            else:
                cur.append(e)
        if late:                       # what hangs is for the specification to judge
            if not any(e.get('op') == 'crash' for x in evs for e in x):
                raise HarnessError('%s did not finish' % name)
            evs += [[] for _ in part[len(evs):]]
        if len(evs) != len(part):
            raise HarnessError('%s: %d of %d traces: %s' % (name, len(evs), len(part), err))
        for i, x in enumerate(evs):
            res[j + i * len(procs)] = x
    for ev in res:
        for e in ev:
            if e.get('op') == 'harness':
                raise HarnessError('%s harness error: %s' % (name, e.get('what')))
    return res


def run_zdrv(exe, scripts, timeout_per=40, jobs=NCPU, envv=None, total=600):
    """run op scripts (list of {id,cfg,ops,hash}); returns list of event lists in the same order"""
    base = scratch()
    jobs = max(1, min(jobs, len(scripts)))
    procs = []
    for j in range(jobs):
        part = scripts[j::jobs]
        s = os.path.join(base, 's%d' % j)
        o = os.path.join(base, 'o%d' % j)
        sc = os.path.join(base, 'w%d' % j)
        os.makedirs(sc)
        with open(s, 'w') as f:
            for x in part:
                f.write(json.dumps(x) + '\n')
        procs.append((subprocess.Popen([exe, s, o, sc, str(timeout_per)], env=env(**(envv or {})),
                                       stdout=subprocess.DEVNULL, start_new_session=True, stderr=open(os.path.join(base, 'e%d' % j), 'wb')), o, part, j))
    return collect('zdrv', base, procs, len(scripts), total)


# -------------------------------------------------------------- python driver

def run_py(driver, scripts, timeout_per=60, jobs=NCPU, total=700, moddir=None, extra_env=None):
    """run a python driver (drivers/<driver>.py) over scripts"""
    base = scratch()
    moddir = moddir or build_py()
    jobs = max(1, min(jobs, len(scripts)))
    procs = []
    for j in range(jobs):
        part = scripts[j::jobs]
        s, o, sc = (os.path.join(base, k + str(j)) for k in 'sow')
        os.makedirs(sc)
        with open(s, 'w') as f:
            for x in part:
                f.write(json.dumps(x) + '\n')
        e = env(PYTHONPATH=moddir + ':' + DRV, Z5_MODDIR=moddir, OMP_NUM_THREADS=1, OPENBLAS_NUM_THREADS=1)
        e.update(extra_env or {})
        procs.append((subprocess.Popen([PY, os.path.join(DRV, driver + '.py'), s, o, sc, str(timeout_per)], env=e, cwd=sc,
                                       stdout=subprocess.DEVNULL, start_new_session=True, stderr=open(os.path.join(base, 'e%d' % j), 'wb')), o, part, j))
    return collect(driver, base, procs, len(scripts), total)


# ------------------------------------------------------------------ reporting

def known_findings():
    p = os.path.join(VERIF, 'known_findings.jsonl')
    if not os.path.exists(p):
        return []
    return [json.loads(l) for l in open(p) if l.strip() and not l.startswith('#')]


class Check:
    """one run of one property's check"""

    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.rng = random.Random('%s-%s' % (prop, seed))
        self.stats = Stats()
        self.violations = []
        self.known = []
        self.assumptions = []
        self.notes = {}
        self.samples = []
        self.t0 = time.time()

    def thorough(self):
        return self.tier == 'thorough'

    def n(self, quick, thorough):
        return thorough if self.thorough() else quick

    def known_tags(self):
        return [k for k in known_findings() if k.get('property') == self.prop and k.get('status') == 'known']

    def report_known(self, tag, what):
        self.known.append((tag, what))

    def violation(self, name, payload):
        d = os.path.join(VERIF, 'replays')
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, '%s-%s-%d.json' % (self.prop, re.sub(r'[^A-Za-z0-9_.-]', '_', str(name))[:60], len(self.violations)))
        with open(path, 'w') as f:
            json.dump(payload, f, indent=1, default=str)
        self.violations.append(path)

    def sample(self, tr, n=6):
        """an actual case of this run, for the evidence"""
        if len(self.samples) < n:
            self.samples.append({'id': tr.get('id'), 'cfg': tr.get('cfg'), 'events': tr['ev'][:6]})

    def finish(self, level='model_checking'):
        st = self.stats
        top = dict(sorted(st.ops.items(), key=lambda x: -x[1])[:60])
        cov = {'states': st.states, 'transitions': st.transitions, 'traces_validated_against_impl': st.traces,
               'samples': self.samples, 'events_validated': st.events, 'operations': top, 'models': st.models}
        cov.update(self.notes)
        if self.known:
            cov['known_findings'] = [t for t, _ in self.known]
        ev = {'property': self.prop, 'tier': self.tier, 'seed': self.seed, 'level': level, 'coverage': cov,
              'wall_s': round(time.time() - self.t0, 1), 'assumptions': self.assumptions, 'violations': len(self.violations)}
        d = os.path.join(VERIF, 'evidence')
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, self.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, default=str)
        for tag, what in self.known:
            print('KNOWN-FINDING: property=%s %s: %s' % (self.prop, tag, what), flush=True)
        for v in self.violations:
            print('VIOLATION property=%s replay=%s' % (self.prop, v), flush=True)
        return 1 if self.violations else 0


def reproduce_and_report(chk, scripts, results, rejected, rerun, module, cfg=None, limit=3, exact=False):
    """a rejection counts only if running the script again is rejected again (exact: one rejected
    recording of a concurrent execution is conclusive, reruns are only informative)"""
    seen, t = 0, time.time()
    for (ti, ei) in rejected:
        if seen >= limit or (seen and time.time() - t > 60):
            break
        ev = results[ti]['ev']
        bad = ev[ei] if ei < len(ev) else None
        rej2, again = [], None
        for _ in range(3):
            again = rerun([scripts[ti]])
            rej2 = validate(Stats(), module, again, cfg)
            if rej2 or exact:
                break
        if rej2 or exact:
            seen += 1
            chk.violation(scripts[ti]['id'], {
                'property': chk.prop, 'spec': module, 'script': scripts[ti], 'rejected_event': ei, 'event': bad,
                'events': ev, 'second_run': again[0]['ev'] if again else None,
                'second_run_rejected_at': rej2[0][1] if rej2 else None})
            log('VIOLATION in trace', scripts[ti]['id'], 'event', ei, json.dumps(bad)[:500])
        else:
            log('rejection of', scripts[ti]['id'], 'event', ei, 'did not repeat:', json.dumps(bad)[:600])
            chk.notes.setdefault('unrepeated', []).append(scripts[ti]['id'])
    if chk.violations:
        raise Found()
