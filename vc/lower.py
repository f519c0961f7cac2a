"""Mechanical lowering of /repo translation units to LLVM IR (text).

Every run re-lowers the current working tree.  Nothing is rewritten by hand:
clang-18 -O0 produces IR for the real translation unit, `opt-18` runs only
scalar clean-up passes (sroa/mem2reg, simplifycfg, loop-simplify) so that the
verifier sees SSA form and natural loops.
"""
import os, subprocess, hashlib, tempfile

REPO = os.environ.get('VERIF_REPO', '/repo')
CLANG = '/usr/lib/llvm-18/bin/clang' if os.path.exists('/usr/lib/llvm-18/bin/clang') else 'clang-18'
OPT = '/usr/lib/llvm-18/bin/opt' if os.path.exists('/usr/lib/llvm-18/bin/opt') else 'opt-18'

# ISA configurations the project can be built for
CONFIGS = {
    'nosimd': ['-mno-avx'],                       # plain SSE x86-64 (no hand written vector code)
    'avx':    ['-mavx', '-mno-avx2', '-mno-fma'],
    'avx2':   ['-mavx2', '-mfma'],
    'avx512': ['-mavx512f', '-mfma'],
    'avx512nofma': ['-mavx512f', '-mfma', '-U__FMA__'],
    'avx2nofma': ['-mavx2', '-mfma', '-U__FMA__'],
    'cblas':  ['-mavx2', '-mfma', '-DUSE_CBLAS'],
}
PASSES = 'function(sroa,simplifycfg<no-sink-common-insts;no-hoist-common-insts;no-switch-to-lookup>,instsimplify,loop-simplify,lcssa)'

class LowerError(Exception):
    pass

def includes():
    return ['-I', os.path.join(REPO, 'src'), '-I', os.path.join(REPO, 'npy_array'),
            '-I/usr/include/x86_64-linux-gnu/openblas-pthread', '-I/usr/include/openblas', '-idirafter', os.path.join(os.path.dirname(os.path.abspath(__file__)), 'stubs')]

def lower(path, config='avx512', extra=(), openmp=False):
    """path relative to REPO -> IR text"""
    src = path if os.path.isabs(path) else os.path.join(REPO, path)
    cmd = [CLANG, '-std=gnu99', '-O0', '-Xclang', '-disable-O0-optnone', '-gline-tables-only',
           '-ffp-contract=off', '-fno-strict-aliasing', '-w', '-S', '-emit-llvm', '-o', '-'] \
        + (['-fopenmp'] if openmp else []) + CONFIGS[config] + list(extra) + includes() + [src]
    p = subprocess.run(cmd, capture_output=True, text=True)
    if p.returncode != 0:
        raise LowerError('clang failed on %s [%s]:\n%s' % (path, config, p.stderr[-3000:]))
    q = subprocess.run([OPT, '-S', '-passes=' + PASSES, '-o', '-'], input=p.stdout,
                       capture_output=True, text=True)
    if q.returncode != 0:
        raise LowerError('opt failed on %s [%s]:\n%s' % (path, config, q.stderr[-3000:]))
    return q.stdout

def tool_versions():
    a = subprocess.run([CLANG, '--version'], capture_output=True, text=True).stdout.splitlines()[0]
    return a

if __name__ == '__main__':
    import sys
    print(lower(sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else 'avx512'))
