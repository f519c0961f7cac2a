"""C string functions over concrete strings and opaque symbolic strings (Region.sym)."""
from terms import *
import terms as tm
import solve
from execu import *
from execu import Unsupported
from intrinsics import b, BUILTIN

SYMLITS = {}     # sym name -> {literal bytes: Bool var}

def conc(p):
    """concrete bytes of a string pointer or None"""
    r = p.base
    if r is None or isinstance(r, Fn) or p.off.op != 'const': return None
    by = getattr(r, 'bytes', None)
    if by is None or not getattr(r, 'const', True): return None
    o = int(p.off.args[0])
    by = bytes(by)[o:]
    i = by.find(b'\0')
    return by if i < 0 else by[:i]

def litregion(ex, st, s, name=None):
    if isinstance(s, str): s = s.encode()
    r = Region(name or 'str_%d' % next(tm._fresh), 'cells', IC(len(s) + 1), es=1, writable=False)
    r.bytes = s + b'\0'; r.const = True
    st.mem[r] = {i: (1, IC(x)) for i, x in enumerate(s + b'\0')}
    return r

def symregion(ex, st, name):
    """an arbitrary NUL terminated string"""
    r = Region(name, 'cells', None, es=1, writable=False)
    r.sym = name; r.lazy = True
    st.mem[r] = {}
    return r

def eqlit(st, sym, lit):
    """Bool: symbolic string == literal; mutually exclusive for distinct literals"""
    tab = SYMLITS.setdefault(sym, {})
    v = tab.get(lit)
    if v is None: v = tab[lit] = var('%s=="%s"' % (sym, lit.decode('latin1')), B)
    fs = set(st.facts())
    for l2, v2 in tab.items():
        if l2 != lit:
            x = or_(not_(v), not_(v2))
            if x not in fs: st.assume(x)
    return v

def strcmp1(ex, it, st, p, q):
    for x in (p, q):
        if x.base is None or isinstance(x.base, Fn):
            ex.oblige(st, it.line, 'null', FALSE, 'string comparison of a null pointer'); return IC(1)
    a, c = conc(p), conc(q)
    if a is not None and c is not None: return IC(0 if a == c else -1 if a < c else 1)
    if p.base is q.base and p.off is q.off: return IC(0)
    if a is None and c is not None: e = symeq(st, p, c); return ite(e, IC(0), fresh_cmp(st))
    if c is None and a is not None: e = symeq(st, q, a); return ite(e, IC(0), fresh_cmp(st))
    sp, sq = getattr(p.base, 'sym', None), getattr(q.base, 'sym', None)
    if sp and sq and p.off is IC(0) and q.off is IC(0):
        x, y = sorted([sp, sq]); return ite(var('%s==%s' % (x, y), B), IC(0), fresh_cmp(st))
    raise Unsupported('strcmp of %s and %s' % (p, q))

def symeq(st, p, lit):
    s = getattr(p.base, 'sym', None)
    if s is None or p.off is not IC(0): raise Unsupported('string comparison with %s' % p)
    return eqlit(st, s, lit)

def fresh_cmp(st):
    v = fresh('cmp', I); st.assume(ne(v, IC(0))); solve.RANGES[v] = (-2**31, 2**31 - 1)
    return v

def dist(ex, st, ps, fn):
    """apply fn over all alternatives of guarded pointers"""
    def go(i, acc):
        if i == len(ps): return fn(*acc)
        la = alts(ps[i])
        la = [(c, p) for c, p in la if c is TRUE or not solve.infeasible(st.facts() + [c])]
        out = None
        for c, p in reversed(la):
            n = len(st.pc)
            x = go(i + 1, acc + [p])
            out = x if out is None else ite(c, x, out)
        return out
    return go(0, [])

@b('strcmp', 'strcasecmp')
def _strcmp(ex, it, st, n, a):
    return dist(ex, st, a[:2], lambda p, q: strcmp1(ex, it, st, p, q))

@b('strlen')
def _strlen(ex, it, st, n, a):
    def f(p):
        c = conc(p)
        if c is not None: return IC(len(c))
        s = getattr(p.base, 'sym', None)
        if s and p.off is IC(0):
            v = var('len_' + s, I); solve.RANGES[v] = (0, 2 ** 40); st.assume(ge(v, IC(0))); return v
        raise Unsupported('strlen of %s' % (p,))
    return dist(ex, st, a[:1], f)
