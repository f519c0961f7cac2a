"""Frame conditions of the whole library: which process-wide state may be written (C14)."""
from harness import *
import glob, re
from lower import REPO

# state that is process-wide by design, and what makes it so
EXEMPT = [
    ('src/activation.c', lambda m, g: g == 'records', 'registry of activation functions loaded by name from shared objects'),
    ('src/neuralnet.c', lambda m, g: only_in(m, g, lambda f: calls(m, f, {'rand', 'random', 'lrand48', 'drand48'})), 'state of the random generator behind neuralnet_initialize'),
]
def users(m, g):
    pat = re.compile(r'@"?%s"?(?![-a-zA-Z$._0-9])' % re.escape(g))
    return [f for f in m.funcs.values() if any(pat.search(it.txt) for b in f.blocks.values() for it in b.ins)]
def calls(m, f, names, seen=()):
    """f calls one of names, possibly through functions of its own file"""
    for b in f.blocks.values():
        for it in b.ins:
            if it.op == 'call' and it.x and it.x[0] == 'glob':
                n = it.x[1].strip('"')
                if n in names: return True
                if n in m.funcs and n not in seen and calls(m, m.funcs[n], names, tuple(seen) + (n,)): return True
    return False
def only_in(m, g, ok): return all(ok(f) for f in users(m, g))

def check_frames(c, files):
    for m, s in zip(c.modules, files):
        ro = execu_readonly(m)
        n = 0
        for g, d in sorted(m.globals.items()):
            if d['ext']: continue
            ok = d['const'] or g in ro
            why = 'is never written'
            if not ok:
                for f, t, w in EXEMPT:
                    if s == f and t(m, g): ok, why = True, w; c.ex.notes.add('process-wide state by design: %s in %s (%s)' % (g, s, w))
            if not d['const']: n += 1
            fn = g.split('.')[0] if '.' in g and not g.startswith('.') else s
            if not d['const'] or not ok:
                c.ex.obls.append(Obl(fn, 0, 'frame', 'process-wide variable %s %s' % (g, why if ok else 'is not written'), ok, None if ok else FALSE, []))
        c.ex.obls.append(Obl(s, 0, 'frame', 'every writable variable of %s is accounted for (%d)' % (s, n), True, TRUE, []))
    return c
import execu
def execu_readonly(m): return execu.readonly_statics(m)

@contract('frame', {'C14': None}, ['nosimd', 'avx512'], functions=['all functions of src/ and npy_array/ (frame conditions)'])
def frame(cfg):
    files = sorted(os.path.relpath(p, REPO) for p in glob.glob(os.path.join(REPO, 'src', '*.c')) + glob.glob(os.path.join(REPO, 'npy_array', '*.c')))
    return check_frames(Ctx(cfg, files), files)
