"""Replay of a failed obligation against the real code: the driver of the property's area
is compiled with /repo's current sources under ASan/UBSan for every ISA configuration, and
its boundary-plus-random search is run; a failing run is the concrete counterexample."""
import os, re, subprocess, glob, tempfile, shutil, concurrent.futures as cf
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
DRIVERS = {
    'C01': ['net', 'kernels', 'act'], 'C02': ['kernels'], 'C03': ['kernels', 'act', 'loss', 'net'], 'C04': ['net', 'act', 'loss', 'kernels'],
    'C05': ['act'], 'C06': ['loss'], 'C07': ['loss'], 'C08': ['names'], 'C16': ['net'], 'C19': ['net', 'opt', 'big'], 'C21': ['net', 'big'],
    'C12': ['opt'], 'C13': ['opt'], 'C14': ['indep'], 'C15': ['cb'], 'C17': ['create'], 'C18': ['create'],
    'C20': ['list'], 'C09': ['npy', 'npyfuzz'], 'C10': ['npyfuzz', 'npy'], 'C11': ['load'], 'C22': ['logger'],
}
CFG = {'omp': ['-mavx2', '-mfma', '-fopenmp'], 'nosimd': ['-mno-avx'], 'avx': ['-mavx'], 'avx2': ['-mavx2', '-mfma'], 'avx512': ['-mavx512f', '-mfma'],
       'avx2nofma': ['-mavx2', '-mfma', '-U__FMA__'], 'avx512nofma': ['-mavx512f', '-mfma', '-U__FMA__'],
       'cblas': ['-mavx2', '-mfma', '-DUSE_CBLAS']}
LIBS = {'cblas': ['-lopenblas']}
NEED = {'omp': 'avx2', 'avx': 'avx', 'avx2': 'avx2', 'avx512': 'avx512f', 'avx2nofma': 'avx2', 'avx512nofma': 'avx512f', 'cblas': 'avx2'}
SAN = ['-fsanitize=address,undefined', '-fno-sanitize=float-divide-by-zero,float-cast-overflow', '-fno-sanitize-recover=undefined', '-fno-omit-frame-pointer']

def cpuflags():
    try: return set([l for l in open('/proc/cpuinfo') if l.startswith('flags')][0].split())
    except Exception: return set()

def sh(cmd, timeout, **kw):
    try: p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, **kw); return p.returncode, p.stdout.decode('latin1')
    except subprocess.TimeoutExpired as e: return -999, (e.stdout or b'').decode('latin1')

def build(cfg, driver, d, extra=()):
    srcs = sorted(glob.glob(REPO + '/src/*.c') + glob.glob(REPO + '/npy_array/*.c'))
    out = os.path.join(d, '%s-%s' % (driver, cfg))
    cc = ['gcc', '-std=gnu99', '-O1', '-g', '-w'] + SAN + CFG[cfg] + ['-I', REPO + '/src', '-I', REPO + '/npy_array', '-I', HERE]
    wrap = ['-Wl,--wrap=' + w for w in sorted(set(re.findall(r'__wrap_(\w+)', open(os.path.join(HERE, 'drv_%s.c' % driver)).read())))]
    objs = []
    od = os.path.join(d, 'o-' + cfg); os.makedirs(od, exist_ok=True)
    for s in srcs:
        o = os.path.join(od, os.path.basename(s) + '.o')
        if not os.path.exists(o):
            rc, t = sh(cc + ['-c', s, '-o', o], 120)
            if rc: return None, t
        objs.append(o)
    rc, t = sh(cc + list(extra) + ['-o', out, os.path.join(HERE, 'drv_%s.c' % driver)] + objs + wrap + LIBS.get(cfg, []) + ['-lzip', '-ldl', '-lm'], 120)
    return (None, t) if rc else (out, t)

def runone(cfg, driver, d, seed=1, tlimit=90):
    exe, log = build(cfg, driver, d)
    if exe is None: return dict(driver=driver, cfg=cfg, build_error=log[-1500:], failed=False)
    wd = os.path.join(d, 'w-%s-%s' % (driver, cfg)); os.makedirs(wd, exist_ok=True)
    env = dict(os.environ, ASAN_OPTIONS='detect_leaks=%d:abort_on_error=0:allocator_may_return_null=1:detect_stack_use_after_return=0' % (driver in ('create', 'list', 'npy', 'npyfuzz', 'load', 'logger')),
               UBSAN_OPTIONS='print_stacktrace=1', OPENBLAS_NUM_THREADS='1', OMP_NUM_THREADS='4' if cfg == 'omp' and driver != 'indep' else '1')
    rc, out = sh([exe, str(seed)], tlimit, cwd=wd, env=env)
    return dict(driver=driver, cfg=cfg, rc=rc, failed=rc not in (0, -999), output=out[-4000:])

def search(prop, failed, outdir, cfgs=None, verbose=False):
    fl = cpuflags()
    drv = [x for x in DRIVERS.get(prop, []) if os.path.exists(os.path.join(HERE, 'drv_%s.c' % x))]
    want = [f['job'].split('@')[-1] for f in failed] if failed else []
    order = cfgs or [c for c in ('avx512', 'nosimd', 'avx2', 'avx', 'omp') if c not in NEED or NEED[c] in fl]
    for c in dict.fromkeys(want):
        if c in CFG and c not in order and (c not in NEED or NEED[c] in fl): order.append(c)
    d = tempfile.mkdtemp(prefix='replay-')
    try:
        with cf.ThreadPoolExecutor(8) as ex:
            def percfg(c):
                out = []
                for x in drv:
                    if c == 'cblas' and x not in ('net', 'opt', 'big'): continue          # vectors of length zero, other code
                    r = runone(c, x, d); out.append(r)
                    if verbose: print(c, x, r.get('rc'), (r.get('build_error') or r.get('output') or '')[-600:] if r.get('rc') else '', flush=True)
                    if r['failed']: break
                return out
            res = [r for rs in ex.map(percfg, order) for r in rs]
        hits = [r for r in res if r['failed']]
        if hits:
            h = hits[0]
            h['how_to_rerun'] = 'compile /verif/replay/drv_%s.c with all of /repo/src/*.c and /repo/npy_array/*.c using gcc %s %s (and -Wl,--wrap=NAME for every __wrap_NAME in the driver) -lzip -ldl -lm and run it with argument 1' % (h['driver'], ' '.join(CFG[h['cfg']] + LIBS.get(h['cfg'], [])), ' '.join(SAN))
            return h
        return None
    finally: shutil.rmtree(d, ignore_errors=True)

if __name__ == '__main__':
    import sys
    print(search(sys.argv[1], [], '/tmp', verbose=True) and 'FAILING INPUT FOUND')
