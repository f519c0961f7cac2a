"""Assumed contracts of the C string functions over byte buffers of symbolic content (regions of
kind 'arr' with one-byte elements).  Each requires a terminator inside the buffer at or after the
pointer and never looks beyond it."""
from terms import *
import terms as tm
import solve, cstr, heap, intrinsics, loops
from solve import prove, RANGES
from execu import *
from execu import Unsupported
from intrinsics import BUILTIN
from fractions import Fraction

def isbuf(st, p): return isinstance(p, Ptr) and p.base is not None and not isinstance(p.base, Fn) and isinstance(st.mem.get(p.base), Arr) and p.base.es == 1
def at(st, r, i): return st.mem[r].at(i if isinstance(i, T) else IC(i))
def fit(ex, st, r):
    """bytes, as the machine reads them"""
    c = st.mem[r]
    if isinstance(c, Arr) and c.body.sort != I: heap.retag(ex, st, r, 1, True)
def candidates(st, r):
    out = []
    if r.size is not None: out.append(sub(r.size, IC(1)))
    v, body = st.mem[r].v, st.mem[r].body
    for e in subterms(body, lambda t: t.op == 'eq0' and v in fv(t)):
        d = pd(e.args[0]); k = d.get((v,))
        if k in (1, -1) and all(v not in m for m in d if m != (v,)):
            t = tm.scale(sub(e.args[0], tm.scale(v, k)), -1 / Fraction(k))
            if t not in out: out.append(t)
    return out
def terminator(ex, st, p, line, what):
    """an index with a NUL at or after p; the obligation that there is one"""
    r = p.base
    if not isbuf(st, p): raise Unsupported('%s of %s' % (what, p))
    fit(ex, st, r)
    for t in candidates(st, r):
        if prove(st.facts(), eq(at(st, r, t), IC(0))):
            ex.oblige(st, line, 'bounds', and_(ge(p.off, IC(0)), le(p.off, t)), '%s: %s is terminated' % (what, r.name)); return t
    ex.oblige(st, line, 'bounds', FALSE, '%s: %s is terminated' % (what, r.name)); return None

def one(st, p, what):
    la = heap.feasible(st, p)
    if len(la) != 1: raise Unsupported('%s of a conditional pointer' % what)
    return la[0][1]
def nonnull(ex, st, p, line, what):
    for c, q in heap.feasible(st, p):
        if q.base is None: ex.oblige(st, line, 'null', not_(c), '%s of a null pointer' % what)
    la = [(c, q) for c, q in heap.feasible(st, p) if q.base is not None]
    if len(la) != 1: raise Unsupported('%s of a conditional pointer' % what)
    return la[0][1]

def inrange(st, v, lo, hi):
    RANGES[v] = (Fraction(lo), Fraction(hi)); st.assume(and_(ge(v, IC(lo)), le(v, IC(hi)))); return v

def c_strstr(ex, f, it, st, a):
    p, lit = nonnull(ex, st, a[0], it.line, 'strstr'), cstr.conc(one(st, a[1], 'strstr'))
    if lit is None: raise Unsupported('strstr of a string that is not a constant')
    t = terminator(ex, st, p, it.line, 'strstr')
    if t is None: st.env[it.res] = NULL; return st
    found = fresh('found', B); j = fresh('at', I); RANGES[j] = (Fraction(0), Fraction(2 ** 62))
    fs = [ge(j, p.off), le(add(j, IC(len(lit))), t)] + [eq(at(st, p.base, add(j, IC(i))), IC(ch if ch < 128 else ch - 256)) for i, ch in enumerate(lit)]
    st.assume(implies(found, and_(*fs)))
    st.env[it.res] = PIte([(found, Ptr(p.base, j)), (TRUE, NULL)]); return st

def c_strchr(ex, f, it, st, a):
    p = one(st, a[0], 'strchr'); lit = cstr.conc(p); ch = a[1]
    if lit is not None:
        alt = [(eq(ch, IC(x)), Ptr(p.base, add(p.off, IC(i)))) for i, x in enumerate(lit + b'\0')]
        st.env[it.res] = PIte(alt + [(TRUE, NULL)]); return st
    p = nonnull(ex, st, a[0], it.line, 'strchr'); t = terminator(ex, st, p, it.line, 'strchr')
    if t is None: st.env[it.res] = NULL; return st
    found = fresh('found', B); j = fresh('at', I); RANGES[j] = (Fraction(0), Fraction(2 ** 62))
    st.assume(implies(found, and_(ge(j, p.off), le(j, t), eq(at(st, p.base, j), ch)))); st.assume(or_(found, ne(ch, IC(0))))
    st.env[it.res] = PIte([(found, Ptr(p.base, j)), (TRUE, NULL)]); return st

def c_strncmp(ex, f, it, st, a):
    p, q = one(st, a[0], 'strncmp'), one(st, a[1], 'strncmp')
    if cstr.conc(p) is not None and cstr.conc(q) is None: p, q = q, p
    lit = cstr.conc(q)
    if lit is None: raise Unsupported('strncmp of two unknown strings')
    n = len(lit) + 1
    if len(a) > 2:
        if a[2].op != 'const': raise Unsupported('strncmp with a symbolic length')
        n = min(n, int(a[2].args[0]))
    else: n = len(lit) + 1
    terminator(ex, st, p, it.line, 'strncmp')
    # the comparison ends at the first difference, so later characters count only when all before agree
    same = and_(*[eq(at(st, p.base, add(p.off, IC(i))), IC((lit + b'\0')[i])) for i in range(n)])
    r = inrange(st, fresh('cmp', I), -2 ** 31, 2 ** 31 - 1); st.assume(ne(r, IC(0)))
    st.env[it.res] = ite(same, IC(0), r); return st

def digit(c): return and_(ge(c, IC(48)), le(c, IC(57)))
def number(lo, hi, name):
    def h(ex, f, it, st, a):
        p = nonnull(ex, st, a[0], it.line, name); t = terminator(ex, st, p, it.line, name)
        if len(a) > 2 and a[2] is not IC(10): raise Unsupported(name + ' with another base')
        v = inrange(st, fresh('number', I), lo, hi)
        if len(a) > 1 and t is not None:
            e = one(st, a[1], name)
            if e.base is not None:
                k = fresh('digits', I); RANGES[k] = (Fraction(0), Fraction(2 ** 62))
                st.assume(and_(ge(k, IC(0)), le(add(p.off, k), t), implies(digit(at(st, p.base, p.off)), ge(k, IC(1)))))
                ex.store(st, ('ptr',), Ptr(p.base, add(p.off, k)), e, 8, it.line)
        st.env[it.res] = v; return st
    return h
def c_strlen(ex, f, it, st, a):
    la = heap.feasible(st, a[0])
    if len(la) == 1 and isbuf(st, la[0][1]):
        p = la[0][1]; t = terminator(ex, st, p, it.line, 'strlen')
        n = fresh('len', I); RANGES[n] = (Fraction(0), Fraction(2 ** 62)); st.assume(ge(n, IC(0)))
        if t is not None:
            st.assume(and_(le(add(p.off, n), t), eq(at(st, p.base, add(p.off, n)), IC(0))))
            v = fresh('q', I); loops.record_all(st, v, n, ne(at(st, p.base, add(p.off, v)), IC(0)))
        st.env[it.res] = n; return st
    st.env[it.res] = BUILTIN['strlen'](ex, it, st, 'strlen', a); return st

# the classification table of the C locale
def _class(ch):
    if not 0 <= ch < 128: return 0
    c = chr(ch); up, lo, dg = 'A' <= c <= 'Z', 'a' <= c <= 'z', '0' <= c <= '9'
    al = up or lo; pr = 32 <= ch < 127
    return (256 if up else 0) | (512 if lo else 0) | (1024 if al else 0) | (2048 if dg else 0) | (4096 if dg or c in 'abcdefABCDEF' else 0) | (8192 if c in ' \t\n\v\f\r' else 0) \
        | (16384 if pr else 0) | (32768 if pr and c != ' ' else 0) | (1 if c in ' \t' else 0) | (2 if not pr else 0) | (4 if pr and not al and not dg and c != ' ' else 0) | (8 if al or dg else 0)
def ctype(k):
    out, i = IC(0), 0
    while i < 128:
        j = i
        while j < 127 and _class(j + 1) == _class(i): j += 1
        out = ite(and_(ge(k, IC(i)), le(k, IC(j))), IC(_class(i)), out); i = j + 1
    return out
class CType:
    def load(self, ex, st, ty, p, line):
        k = ex.elemidx(p.off, 2)
        if k is None or ty != ('int', 16): raise Unsupported('access to the character table')
        ex.oblige(st, line, 'bounds', and_(ge(k, IC(0)), lt(k, IC(384))), 'character class of an unsigned char or EOF')
        ex.oblige(st, line, 'bounds', ge(k, IC(127)), 'character class of an unsigned char or EOF')
        return maptree(ctype(sub(k, IC(128))), lambda v: v if v.args[0] < 32768 else sub(v, IC(65536)))
    def store(self, ex, st, ty, v, p, line): ex.oblige(st, line, 'write', FALSE, 'write to the character table')
def ctype_b_loc(ex, f, it, st, a):
    tab = getattr(ex, 'ctype', None)
    if tab is None:
        t = Region('ctype_b', 'cells', IC(768), writable=False, align=2); t.es = 2; t.stepped = True; t.handler = CType()
        q = Region('ctype_b_ptr', 'cells', IC(8), writable=False, align=8); tab = ex.ctype = (t, q)
    t, q = tab
    st.mem.setdefault(t, {}); st.mem[q] = {0: (8, Ptr(t, 256))}
    st.env[it.res] = Ptr(q, 0); return st

LL, INT = (-2 ** 63, 2 ** 63 - 1), (-2 ** 31, 2 ** 31 - 1)
ULL = LL          # unsigned 64-bit values are held as signed ones
CONTRACTS = dict(strstr=c_strstr, strchr=c_strchr, strncmp=c_strncmp, strlen=c_strlen, __ctype_b_loc=ctype_b_loc)
for pre in ('', '__isoc23_'):
    for nm, rg in (('strtol', LL), ('strtoll', LL), ('strtoul', ULL), ('strtoull', ULL), ('strtoimax', LL), ('strtoumax', ULL)): CONTRACTS[pre + nm] = number(rg[0], rg[1], nm)
CONTRACTS['atoi'] = number(*INT, 'atoi'); CONTRACTS['atol'] = CONTRACTS['atoll'] = number(*LL, 'atol')
NUMBERS = [n for n in CONTRACTS if 'strto' in n or n.startswith('ato')]

def terminators(st):
    """indices of known NUL bytes in byte buffers of unknown content"""
    out = []
    for r, c in st.mem.items():
        if isinstance(c, Arr) and r.es == 1 and c.body.op != 'const' and c.body.sort == I:
            out += [t for t in candidates(st, r) if prove(st.facts(), eq(at(st, r, t), IC(0)))]
    return out
def progress(ex, st, head, latch, line):
    g = [gt(latch[k].off, head[k].off) for k in head if isinstance(head[k], Ptr) and isinstance(latch.get(k), Ptr)]
    ex.oblige(st, line, 'loop', or_(*g) if g else FALSE, 'the parser moves on in every round')
def scanloop(names=()):
    """hook for loops that move a pointer through a terminated buffer: the pointer stays at or before the
    terminator (an inductive bound, checked like every candidate)"""
    import steps
    h = steps.StepLoop((), set(), lambda ex, st: None, lambda ex, st, line: None, lambda ex, st, line: None)
    h.progress = progress
    def call(ex, f, L, phis, init, s0, rets):
        moved = [v for v in init.values() if isinstance(v, (Ptr, PIte))]
        for b in L.blocks:
            for it in f.blocks[b].ins:
                if it.op == 'store' and it.ty and it.ty[0] == 'ptr': moved.append(1)
        if not moved or steps.loop_calls(ex, f, L.blocks, names): return None
        h.marks = terminators(s0)
        if not h.marks: return None
        return steps.step_loop(h, ex, f, L, phis, init, s0, rets)
    return call
