"""Variable arguments and formatted text.  A va_list is `fresh' until a v*printf call consumes it;
using a consumed, ended or uninitialised one is undefined.  Formatting is an assumed contract: the
text of (format, arguments) is one fixed unknown string of length F, or F < 0 (cannot be formatted)."""
from terms import *
import terms as tm
import solve, intrinsics, cstr, heap, execu
from execu import *
from execu import Unsupported
from intrinsics import b, pre, BUILTIN
from fractions import Fraction

def key(p):
    if not isinstance(p, Ptr) or p.base is None or p.off.op != 'const': raise Unsupported('va_list %s' % (p,))
    return ('va', p.base, p.off)
def vstate(st, p): return st.ghost.get(key(p), IC(0))

def _start(ex, it, st, n, a): st.ghost[key(a[0])] = IC(1); return None
def _end(ex, it, st, n, a):
    ex.oblige(st, it.line, 'call', ne(vstate(st, a[0]), IC(0)), 'va_end of a started argument list'); st.ghost[key(a[0])] = IC(0); return None
def _copy(ex, it, st, n, a):
    v = vstate(st, a[1]); ex.oblige(st, it.line, 'call', eq(v, IC(1)), 'va_copy of an argument list that was not yet used'); st.ghost[key(a[0])] = v; return None
intrinsics.PREFIX.insert(0, ('llvm.va_start', _start)); intrinsics.PREFIX.insert(0, ('llvm.va_end', _end)); intrinsics.PREFIX.insert(0, ('llvm.va_copy', _copy))

def fmtname(p):
    if not isinstance(p, Ptr) or p.base is None or isinstance(p.base, Fn): return None
    s = getattr(p.base, 'sym', None)
    if s and p.off is IC(0): return s
    by = cstr.conc(p)
    return 'lit:' + by.decode('latin1') if by is not None else None

def textlen(st, name):
    F = var('fmtlen_' + name, I); solve.RANGES[F] = (Fraction(-1), Fraction(2 ** 31 - 1))
    st.assume(and_(ge(F, IC(-1)), le(F, IC(2 ** 31 - 1)))); return F

def emit(ex, it, st, dst, limit, name, F, what):
    """write the first min(F, limit-1) characters and a terminator"""
    n = F if limit is None else ite(le(F, sub(limit, IC(1))), F, sub(limit, IC(1)))
    cond = ge(F, IC(0)) if limit is None else and_(ge(F, IC(0)), gt(limit, IC(0)))
    def f(s, q):
        if q.base is None:
            ex.oblige(s, it.line, 'null', FALSE if limit is None else le(limit, IC(0)), '%s into a null pointer' % what); return
        r = q.base
        if limit is None: ex.oblige(s, it.line, 'call', ge(F, IC(0)), '%s: the text can be formatted' % what)
        s2 = s.fork(); s2.assume(cond)
        ex.bounds(s2, q, add(n, IC(1)), it.line, what + ' into')
        if not r.writable: ex.oblige(s2, it.line, 'write', FALSE, '%s into %s' % (what, r.name))
        if getattr(r, 'pending', False): r.es, r.sort, r.pending = 1, I, False
        c = s.mem.get(r)
        if isinstance(c, Arr) and r.es == 1 and q.off is IC(0):
            if c.body.sort != I: heap.retag(ex, s, r, 1, True); c = s.mem[r]
            body = ite(and_(cond, ge(c.v, IC(0)), lt(c.v, n)), app('text_' + name, I, c.v), ite(and_(cond, eq(c.v, n)), IC(0), c.body))
            s.mem[r] = Arr(c.v, body); s.ghost[('text', r, name)] = ite(cond, n, IC(-1))
        elif isinstance(c, dict):
            s.mem[r] = {}; r.lazy = True; r.text = name      # contents unknown from here on
        else: raise Unsupported('%s into %s' % (what, r.name))
    heap.distribute(ex, st, dst, f)

def useva(ex, it, st, p, what):
    ex.oblige(st, it.line, 'call', eq(vstate(st, p), IC(1)), '%s: the argument list was not used before' % what); st.ghost[key(p)] = IC(2)

@b('vsnprintf')
def _vsnprintf(ex, it, st, n, a):
    d, size, fmt, ap = a
    la = heap.feasible(st, fmt)
    nm = fmtname(la[0][1]) if len(la) == 1 else None
    if nm is None: raise Unsupported('vsnprintf with format %s' % (fmt,))
    useva(ex, it, st, ap, n); F = textlen(st, nm)
    if size is not IC(0): emit(ex, it, st, d, size, nm, F, n)
    return F
@b('vsprintf')
def _vsprintf(ex, it, st, n, a):
    d, fmt, ap = a
    la = heap.feasible(st, fmt)
    nm = fmtname(la[0][1]) if len(la) == 1 else None
    if nm is None: raise Unsupported('vsprintf with format %s' % (fmt,))
    useva(ex, it, st, ap, n); F = textlen(st, nm)
    emit(ex, it, st, d, None, nm, F, n)
    return F
