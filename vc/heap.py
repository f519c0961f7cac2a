"""Heap model: malloc family with failure at any allocation, free with exactly-once ghost
counters, use-after-free and leak obligations.  Contracts of external functions (assumed)."""
from terms import *
import terms as tm
import solve
from execu import *
from execu import Unsupported
import execu, intrinsics
from intrinsics import b, pre, BUILTIN
from fractions import Fraction

def feasible(st, p):
    """alternatives of p that the facts allow"""
    if isinstance(p, Ptr): return [(TRUE, p)]
    return [(c, q) for c, q in alts(p) if c is TRUE or not solve.infeasible(st.facts() + [c])]

def distribute(ex, st, p, fn):
    """run fn(state, Ptr) for every alternative of p, merge memory and ghosts"""
    la = feasible(st, p)
    if len(la) == 1: fn(st, la[0][1]); return
    if not la: return
    for c, q in la:
        s2 = st.fork(); s2.assume(c)
        fn(s2, q)
        for r, cc in s2.mem.items():
            old = st.mem.get(r)
            if old is None: st.mem[r] = cc
            elif old is not cc: st.mem[r] = ex.mergecontent(c, cc, old, r)
        for k in set(s2.ghost) | set(st.ghost):
            a, o = s2.ghost.get(k, IC(0)), st.ghost.get(k, IC(0))
            if a is not o and isinstance(a, T): st.ghost[k] = ite(c, a, o)

def newregion(ex, st, size, align, name=None, may_fail=None, zero=False, what='malloc'):
    fail = getattr(ex, 'heap_may_fail', True) if may_fail is None else may_fail
    k = getattr(ex, 'heapseq', 0); ex.heapseq = k + 1
    nm = name or 'heap%d' % next(tm._fresh)
    size = size if isinstance(size, T) else IC(size)
    if size.op == 'const':
        r = Region(nm, 'cells', size, align=align)
        st.mem[r] = {}
        if zero: intrinsics.zero_range(ex, st, Ptr(r, 0), size, 0)
    else:
        r = Region(nm, 'arr', size, align=align); r.pending = True
        v = fresh('r', I)
        st.mem[r] = Arr(v, RC(0) if zero else app('uninit_' + nm, R, v))
    r.heap = what
    if align > 1: st.assume(eq(intmod(r.addr, IC(align)), IC(0)))
    st.assume(gt(r.addr, IC(0)))
    ok = fresh('ok', B) if fail else TRUE
    if fail: ok = var('alloc_ok!%d' % next(tm._fresh), B)
    ex.__dict__.setdefault('heap', []).append(r)
    r.ok = ok
    st.ghost[('a', r)] = ite(ok, IC(1), IC(0))
    st.ghost[('f', r)] = IC(0)
    return r, ok

def result(r, ok): return Ptr(r, 0) if ok is TRUE else PIte([(ok, Ptr(r, 0)), (TRUE, NULL)])

def live(st, r): return sub(st.ghost.get(('a', r), IC(0)), st.ghost.get(('f', r), IC(0)))

@b('malloc')
def _malloc(ex, it, st, n, a):
    ex.oblige(st, it.line, 'call', ge(a[0], IC(0)), 'malloc: size not negative')
    return result(*newregion(ex, st, a[0], 16))
@b('calloc')
def _calloc(ex, it, st, n, a):
    ex.oblige(st, it.line, 'call', and_(ge(a[0], IC(0)), ge(a[1], IC(0))), 'calloc: sizes not negative')
    return result(*newregion(ex, st, mul(a[0], a[1]), 16, zero=True))
@b('posix_memalign')
def _pmemalign(ex, it, st, n, a):
    p, al, size = a
    if al.op != 'const': raise Unsupported('posix_memalign with symbolic alignment')
    ex.oblige(st, it.line, 'call', ge(size, IC(0)), 'posix_memalign: size not negative')
    r, ok = newregion(ex, st, size, int(al.args[0]), what='posix_memalign')
    ex.store(st, ('ptr',), result(r, ok) if ok is TRUE else PIte([(ok, Ptr(r, 0)), (TRUE, Ptr(None, fresh('undefp', I)))]), p, 8, it.line)
    return ite(ok, IC(0), IC(12))
@b('aligned_alloc')
def _aalloc(ex, it, st, n, a):
    return result(*newregion(ex, st, a[1], int(cval(a[0]))))

def do_free(ex, st, p, line, what='free'):
    def f(s, q):
        if q.base is None:
            if q.off.op == 'const' and q.off.args[0] == 0: return
            ex.oblige(s, line, 'heap', FALSE, '%s of an invalid or uninitialised pointer' % what); return
        r = q.base
        if getattr(r, 'family', None) is not None:
            if getattr(r, 'nullat', None) is None: r.family.freed(ex, s, q, line, what); return
            nn = ne(q.off, r.nullat)
            if solve.infeasible(s.facts() + [nn]): return
            if not solve.prove(s.facts(), nn): raise Unsupported('%s of a list pointer that may be null' % what)
            r.family.freed(ex, s, q, line, what); return
        if not getattr(r, 'heap', None) or q.off is not IC(0):
            ex.oblige(s, line, 'heap', FALSE, '%s of %s, which is not the start of an allocated block' % (what, getattr(r, 'name', r))); return
        ex.oblige(s, line, 'heap', eq(s.ghost.get(('f', r), IC(0)), IC(0)), '%s: block is released only once' % what)
        if s.ghost.get(('a', r)) is not None and s.ghost[('a', r)] is not IC(1):
            ex.oblige(s, line, 'heap', eq(s.ghost[('a', r)], IC(1)), '%s: block was allocated' % what)
        s.ghost[('f', r)] = IC(1)
    distribute(ex, st, p, f)

@b('free', '_mm_free')
def _free(ex, it, st, n, a): do_free(ex, st, a[0], it.line); return None

@b('realloc')
def _realloc(ex, it, st, n, a):
    p, size = a
    r, ok = newregion(ex, st, size, 16, what='realloc')
    nc = st.mem[r]
    for c, q in feasible(st, p):
        if q.base is None: continue
        oc = st.mem.get(q.base)
        if isinstance(oc, Arr) and isinstance(nc, Arr):
            if q.base.es == 4: r.es, r.sort = 4, q.base.sort
            else: raise Unsupported('realloc of this element size')
            v = nc.v
            keep = and_(c, ge(v, IC(0)), lt(tm.scale(v, 4), q.base.size))
            nb = nc.body if nc.body.sort == r.sort else app(nc.body.args[0], r.sort, v)
            nc = Arr(v, ite(keep, oc.at(v), nb)); st.mem[r] = nc; r.pending = False
        elif isinstance(oc, dict) and isinstance(nc, dict):
            st.mem[r] = {o: e for o, e in oc.items() if o + e[0] <= int(size.args[0])}
        elif isinstance(oc, dict) and not oc: pass
        else: raise Unsupported('realloc between representations')
    # the old block is released iff the allocation succeeded
    s2 = st.fork(); s2.assume(ok)
    do_free(ex, s2, p, it.line, 'realloc')
    for k, v in s2.ghost.items():
        o = st.ghost.get(k, IC(0))
        if isinstance(v, T) and v is not o: st.ghost[k] = ite(ok, v, o)
    return result(r, ok)

@b('strdup')
def _strdup(ex, it, st, n, a):
    la = feasible(st, a[0])
    if len(la) != 1: raise Unsupported('strdup of a conditional pointer')
    q = la[0][1]
    if q.base is None or isinstance(q.base, Fn):
        ex.oblige(st, it.line, 'null', FALSE, 'strdup of a null pointer'); return NULL
    import cstr
    by = cstr.conc(q); s = getattr(q.base, 'sym', None)
    r, ok = newregion(ex, st, IC(len(by) + 1) if by is not None else IC(1), 1, what='strdup')
    if by is not None: r.bytes = by + b'\0'; r.const = True; st.mem[r] = {i: (1, IC(x)) for i, x in enumerate(by + b'\0')}
    elif s and q.off is IC(0): r.sym = s; r.size = None; r.lazy = True
    else: raise Unsupported('strdup of ' + str(q))
    return result(r, ok)

def use_check(ex, st, r, line, what):
    f = st.ghost.get(('f', r))
    if f is not None and f is not IC(0):
        ex.oblige(st, line, 'heap', eq(f, IC(0)), '%s %s: not used after release' % (what, r.name))
execu.USE_CHECK = use_check

def resort(t, r):
    if t.op == 'const': return const(t.args[0], r.sort)
    if t.op == 'app' and t.args[0].startswith('uninit_'): return app(t.args[0], r.sort, *t.args[1:])
    if t.op == 'ite': return ite(t.args[0], resort(t.args[1], r), resort(t.args[2], r))
    raise Unsupported('block %s is used with two element types' % r.name)
execu.RESORT = resort
def retag(ex, st, r, es, isint):
    """first typed access to an untyped block"""
    c = st.mem[r]
    sort = I if isint else R
    if getattr(r, 'pending', False):
        if es != 4 and es != 8 and es != 1: raise Unsupported('typed access to %s' % r.name)
        r.es, r.sort = es, sort; r.pending = False
    if isinstance(c, Arr) and c.body.sort != r.sort:
        st.mem[r] = Arr(c.v, resort(c.body, r))
execu.RETAG = retag

# ------------------------------------------------------------------ other external functions (assumed contracts)
import solve as _solve
@b('time', 'clock')
def _time(ex, it, st, n, a):
    if n == 'time' and isinstance(a[0], Ptr) and a[0].base is not None: raise Unsupported('time() with a destination')
    v = fresh('time', I); _solve.RANGES[v] = (Fraction(-2 ** 63), Fraction(2 ** 63 - 1)); return v
@b('srand', 'srandom')
def _srand(ex, it, st, n, a): return None
@b('rand', 'random')
def _rand(ex, it, st, n, a):
    v = fresh('rand', I); _solve.RANGES[v] = (Fraction(0), Fraction(2 ** 31 - 1))
    st.assume(and_(ge(v, IC(0)), le(v, IC(2 ** 31 - 1)))); return v
