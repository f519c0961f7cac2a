"""Arrays of structures of symbolic length whose pointer fields refer to blocks allocated one after
the other.  Allocation number s either fails or yields block s; `state[s]` is 0 (not allocated),
1 (allocated) or 2 (released), `size[s]` its size.  A pointer field holds 0 (NULL) or s+1."""
from terms import *
import terms as tm
import solve, heap, intrinsics, execu, loops
from execu import *
from execu import Unsupported
from solve import RANGES
from fractions import Fraction

ES = 2 ** 20
I64 = ('int', 64)
def iarr(st, name, n=None, content=None):
    r = Region(name, 'arr', None if n is None else tm.scale(n, 8), es=8, sort=I, align=16)
    v = fresh('r', I); st.mem[r] = Arr(v, content(v) if content else app('init_' + name, I, v)); return r

class Blocks:
    def __init__(self, c, name, fails=True):
        self.c, self.name, self.fails = c, name, fails
        self.reg = Region(name, 'cells', None, align=64); self.reg.es = ES; self.reg.handler = self; self.reg.family = self; self.reg.stepped = True
        c.st.mem[self.reg] = {}
        self.seq = Region(name + '_count', 'cells', IC(8), align=16); c.st.mem[self.seq] = {0: (8, IC(0))}
        self.state = iarr(c.st, name + '_state', None, lambda v: IC(0))
        self.size = iarr(c.st, name + '_size', None, lambda v: IC(0))
        self.align = iarr(c.st, name + '_align', None, lambda v: IC(0))
    first_failure = None          # number of the first allocation that fails, if any does
    def ok(self, s):
        if not self.fails: return TRUE
        F = self.first_failure
        return app('ok_' + self.name, B, s) if F is None else or_(lt(s, F), and_(gt(s, F), app('ok_' + self.name, B, s)))
    def alloc(self, ex, st, size, align, line):
        s = st.mem[self.seq][0][1]; st.mem[self.seq] = {0: (8, add(s, IC(1)))}
        ok = self.ok(s)
        ex.store(st, I64, ite(ok, IC(1), IC(0)), Ptr(self.state, tm.scale(s, 8)), 8, line)
        ex.store(st, I64, size, Ptr(self.size, tm.scale(s, 8)), 8, line)
        ex.store(st, I64, IC(align), Ptr(self.align, tm.scale(s, 8)), 8, line)
        return s, ok
    def ptr(self, s): return Ptr(self.reg, tm.scale(s, ES))
    def load(self, ex, st, ty, p, line): raise Unsupported('read from %s' % self.name)
    def store(self, ex, st, ty, v, p, line): raise Unsupported('write to %s' % self.name)
    def index(self, p):
        if any(c % ES for c in pd(p.off).values()): return None
        return tm.scale(p.off, Fraction(1, ES))
    def freed(self, ex, st, p, line, what):
        s = self.index(p)
        if s is None: ex.oblige(st, line, 'heap', FALSE, '%s of a pointer into the middle of a block' % what); return
        s2 = st.fork(); loops.instantiate(s2, s)
        ex.oblige_eq(s2, line, 'heap', s2.mem[self.state].at(s), IC(1), '%s: the block is allocated and not yet released' % what)
        ex.store(st, I64, IC(2), Ptr(self.state, tm.scale(s, 8)), 8, line)
    # contracts
    def posix_memalign(self, ex, f, it, st, a):
        p, al, size = a
        if al.op != 'const': raise Unsupported('posix_memalign with symbolic alignment')
        ex.oblige(st, it.line, 'call', ge(size, IC(0)), 'posix_memalign: size not negative')
        s, ok = self.alloc(ex, st, size, int(al.args[0]), it.line)
        ex.store(st, ('ptr',), self.ptr(s) if ok is TRUE else PIte([(ok, self.ptr(s)), (TRUE, NULL)]), p, 8, it.line)
        if it.res is not None: st.env[it.res] = ite(ok, IC(0), IC(12))
        return st
    def encode(self, ex, st, v):
        out = None
        for c, q in reversed(alts(v)):
            if q.base is None: x = IC(0) if q.off is IC(0) else q.off if q.off.op == 'const' else sub(IC(0), fresh('badptr', I))
            elif q.base is self.reg:
                i = self.index(q); 
                if i is None: raise Unsupported('pointer into the middle of a block is stored')
                x = add(i, IC(1))
            else: raise Unsupported('pointer to %s is stored in an array of %s' % (q.base, self.name))
            out = x if out is None else ite(c, x, out)
        return out
    def decode(self, ex, st, code):
        if prove_(st, eq(code, IC(0))): return NULL
        nz = ne(code, IC(0)); f = st.facts() + [nz]
        code = leaf(solve.simp(code, f), f)
        s = sub(code, IC(1))
        return self.ptr(s) if prove_(st, nz) else PIte([(nz, self.ptr(s)), (TRUE, NULL)])
def leaf(t, f):
    """the branch value that equals t under the facts, if there is one"""
    if t.op != 'ite': return t
    ls = []
    def go(x):
        if x.op == 'ite': go(x.args[1]); go(x.args[2])
        elif x not in ls: ls.append(x)
    go(t)
    for x in ls:
        if x.op != 'const' and solve.prove(f, eq(t, x)): return x
    return t
def prove_(st, g): return solve.prove(st.facts(), g)

class FnCodes:
    """function pointers stored as numbers: 0 NULL, 1.. named functions, then base + index of an indexed family"""
    def __init__(self, named, family): self.named, self.family = list(named), family
    def encode(self, ex, st, v):
        out = None
        for c, q in reversed(alts(v)):
            if q.base is None: x = IC(0) if q.off is IC(0) else sub(IC(0), fresh('badptr', I))
            elif isinstance(q.base, Fn) and q.base.name in self.named: x = IC(1 + self.named.index(q.base.name))
            elif isinstance(q.base, Fn) and q.base.name == self.family: x = add(q.off, IC(1 + len(self.named)))
            else: raise Unsupported('function pointer %s is stored' % (q,))
            out = x if out is None else ite(c, x, out)
        return out
    def decode(self, ex, st, code):
        f = st.facts(); res = []
        for i, n in enumerate(['NULL'] + self.named):
            e = eq(code, IC(i))
            if solve.prove(f, not_(e)): continue
            p = NULL if i == 0 else Ptr(Fn.get(n), 0)
            if solve.prove(f, e): return p
            res.append((e, p))
        res.append((TRUE, Ptr(Fn.get(self.family), sub(code, IC(1 + len(self.named))))))
        return res[0][1] if len(res) == 1 else PIte(res)

class StructArray:
    """n structures; each field is an integer array; pointer fields are coded"""
    def __init__(self, c, name, header, typ, fields, n, zero=False):
        self.name, self.fields, self.n = name, fields, n
        self.L = heap_layout(header, typ, list(fields), c.cfg); self.S = self.L['sizeof']
        self.reg = Region(name, 'cells', tm.scale(n, self.S), align=16); self.reg.es = self.S; self.reg.stepped = True; self.reg.handler = self
        self.f = {}
    def fresh(self, st, zero=False):
        st.mem[self.reg] = {}
        for nm in self.fields:
            st_r = iarr(st, '%s_%s' % (self.name, nm), self.n, (lambda v: IC(0)) if zero else None); self.f[nm] = st_r
    def split(self, p):
        d = pd(p.off); c0 = int(d.get((), 0)) % self.S; o = sub(p.off, IC(c0))
        if any(k % self.S for k in pd(o).values()): raise Unsupported('offset %s into %s' % (pp(p.off)[:80], self.name))
        for nm in self.fields:
            if self.L[nm] == c0: return tm.scale(o, Fraction(1, self.S)), nm
        raise Unsupported('field at offset %d of %s' % (c0, self.name))
    def load(self, ex, st, ty, p, line):
        if ty[0] in ('struct', 'pstruct'):
            offs, _ = execu.struct_layout(ex.curmod, ty)
            return Agg(self.load(ex, st, ex.res(t), Ptr(p.base, add(p.off, IC(o))), line) for o, t in zip(offs, ty[2]))
        k, nm = self.split(p)
        v = ex.load(st, I64, Ptr(self.f[nm], tm.scale(k, 8)), 8, line)
        kind = self.fields[nm]
        if getattr(self, 'onload', None): self.onload(st, v)
        if kind is None:
            return v
        if kind.__class__.__name__ == 'tuple':
            st.assume(and_(ge(v, IC(kind[0])), le(v, IC(kind[1])))); return v
        return kind.decode(ex, st, v)
    def store(self, ex, st, ty, v, p, line):
        k, nm = self.split(p); kind = self.fields[nm]
        x = v if isinstance(v, T) else kind.encode(ex, st, v)
        ex.store(st, I64, x, Ptr(self.f[nm], tm.scale(k, 8)), 8, line)
from layout import layout as heap_layout
