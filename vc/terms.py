"""Hash-consed terms: Int / Real polynomials over atoms, Bool formulas, SUM binders."""
from fractions import Fraction
from math import gcd
import itertools

I, R, B = 'I', 'R', 'B'

class T:
    __slots__ = ('op', 'args', 'sort', 'id', '_fv', '_h', '_pd')
    def __repr__(self):
        return pp(self)
    def __lt__(self, o):
        return self.id < o.id
    def __hash__(self):            # not the address: sets of terms are traversed in the same order in every run
        return self.id
    # sugar
    def __add__(self, o): return add(self, lift(o, self.sort))
    __radd__ = __add__
    def __sub__(self, o): return sub(self, lift(o, self.sort))
    def __rsub__(self, o): return sub(lift(o, self.sort), self)
    def __mul__(self, o): return mul(self, lift(o, self.sort))
    __rmul__ = __mul__
    def __neg__(self): return neg(self)
    def __truediv__(self, o): return rdiv(self, lift(o, self.sort))
    def __rtruediv__(self, o): return rdiv(lift(o, self.sort), self)

_tab = {}
_cnt = itertools.count()

def mk(op, args, sort):
    k = (op, args, sort)
    t = _tab.get(k)
    if t is None:
        t = T.__new__(T)
        t.op, t.args, t.sort = op, args, sort
        t.id = next(_cnt)
        t._fv = None; t._h = None; t._pd = None
        _tab[k] = t
    return t

def lift(x, sort):
    if isinstance(x, T):
        if x.sort == I and sort == R:
            return toR(x)
        return x
    return const(x, sort)

def const(v, sort):
    if sort == B:
        return TRUE if v else FALSE
    v = Fraction(v)
    if sort == I and v.denominator != 1:
        raise ValueError('non integer Int const')
    return mk('const', (v,), sort)

def var(name, sort): return mk('var', (name,), sort)
_fresh = itertools.count()
def fresh(prefix, sort): return mk('var', ('%s!%d' % (prefix, next(_fresh)),), sort)

TRUE = mk('const', (True,), B)
FALSE = mk('const', (False,), B)

def isconst(t): return t.op == 'const'
def cval(t): return t.args[0]
def IC(n): return const(n, I)
def RC(n): return const(n, R)

# ---------- polynomials ----------
def pd(t):
    """dict mono -> coef ; mono = sorted tuple of atom T"""
    if t._pd is not None:
        return t._pd
    if t.op == 'const':
        d = {(): t.args[0]} if t.args[0] != 0 else {}
    elif t.op == 'poly':
        d = dict(t.args)
    else:
        d = {(t,): Fraction(1)}
    t._pd = d
    return d

def frompd(d, sort):
    d = {m: c for m, c in d.items() if c != 0}
    if not d:
        return const(0, sort)
    if len(d) == 1:
        (m, c), = d.items()
        if m == ():
            return const(c, sort)
        if c == 1 and len(m) == 1:
            return m[0]
    return mk('poly', tuple(sorted(d.items(), key=lambda mc: ([a.id for a in mc[0]]))), sort)

def add(a, b):
    if a.sort != b.sort:
        a, b = _co(a, b)
    if a.op == 'const' and a.args[0] == 0: return b
    if b.op == 'const' and b.args[0] == 0: return a
    d = dict(pd(a))
    for m, c in pd(b).items():
        d[m] = d.get(m, 0) + c
    return frompd(d, a.sort)

def _co(a, b):
    if a.sort == I: a = toR(a)
    if b.sort == I: b = toR(b)
    return a, b

def neg(a): return frompd({m: -c for m, c in pd(a).items()}, a.sort)
def sub(a, b):
    if a.sort != b.sort:
        a, b = _co(a, b)
    if a is b: return const(0, a.sort)
    return add(a, neg(b))

def scale(a, k):
    return frompd({m: c * k for m, c in pd(a).items()}, a.sort)

MAXMONO = 400
def mul(a, b):
    if a.sort != b.sort:
        a, b = _co(a, b)
    if a.op == 'const': return scale(b, a.args[0])
    if b.op == 'const': return scale(a, b.args[0])
    da, db = pd(a), pd(b)
    if len(da) * len(db) > MAXMONO:
        # opaque product: keep as atom to avoid blow-up
        x, y = (a, b) if a.id < b.id else (b, a)
        return mk('prod', (x, y), a.sort)
    d = {}
    for m1, c1 in da.items():
        for m2, c2 in db.items():
            m = _mulmono(m1, m2)
            d[m] = d.get(m, 0) + c1 * c2
    return frompd(d, a.sort)

def _mulmono(m1, m2):
    if not m1: return m2
    if not m2: return m1
    l = list(m1) + list(m2)
    # cancel x * inv(x)
    invs = [x for x in l if x.op == 'inv']
    if invs:
        for v in invs:
            # x*inv(x)=1 only valid if x != 0 : NOT applied (x/x with x=0)
            pass
    es = [x for x in l if x.op == 'app' and x.args[0] == 'exp']
    if len(es) > 1:          # exp(a)*exp(b) = exp(a+b)
        a = es[0].args[1]
        for x in es[1:]: a = add(a, x.args[1])
        l = [x for x in l if x not in es]
        if not (a.op == 'const' and a.args[0] == 0): l.append(app('exp', R, a))
    l.sort(key=lambda t: t.id)
    return tuple(l)

def inv(a):
    if a.op == 'const':
        if a.args[0] == 0:
            return mk('inv', (a,), R)
        return const(1 / a.args[0], R)
    # normalise numeric content: inv(c*x) = (1/c) inv(x)
    d = pd(a)
    m0 = min(d, key=lambda m: [x.id for x in m])
    c0 = d[m0]
    if len(d) == 1:
        # monomial: product of invs
        r = const(1 / c0, R)
        for x in m0:
            r = mul(r, _inv1(x))
        return r
    if c0 != 1:
        a = scale(a, 1 / c0)
        return scale(mk('inv', (a,), R), 1 / c0)
    return mk('inv', (a,), R)

def _inv1(x):
    if x.op == 'inv':
        return x.args[0] if False else mk('inv', (x,), R)
    if x.op == 'app' and x.args[0] == 'exp':
        return app('exp', R, neg(x.args[1]))      # 1/exp(x) = exp(-x)
    return mk('inv', (x,), R)

def rdiv(a, b):
    return mul(a, inv(b))

def toR(a):
    if a.sort == R: return a
    if a.op == 'const': return const(a.args[0], R)
    if a.op == 'ite': return ite(a.args[0], toR(a.args[1]), toR(a.args[2]))
    if a.op == 'poly':
        r = RC(0)
        for m, c in a.args:
            t = RC(c)
            for x in m:
                t = mul(t, toR(x))
            r = add(r, t)
        return r
    return mk('toR', (a,), R)

def intdiv(a, b):
    """floor division, b > 0 assumed by the caller"""
    if b.op == 'const':
        n = b.args[0]
        if n == 1: return a
        if a.op == 'const': return IC(a.args[0] // n)
        q, r = {}, {}
        for m, c in pd(a).items():
            k = c // n
            if m == ():
                q[m] = k; r[m] = c - k * n
            elif c % n == 0:
                q[m] = c / n
            else:
                q[m] = Fraction(k) if False else 0
                r[m] = c
        qt, rt = frompd(q, I), frompd(r, I)
        if rt.op == 'const':
            return add(qt, IC(rt.args[0] // n))
        return add(qt, mk('div', (rt, b), I))
    if a.op == 'const' and a.args[0] == 0: return a
    if b.op == 'var':
        q = {}
        for m, c in pd(a).items():
            if b not in m: break
            mm = list(m); mm.remove(b); q[tuple(mm)] = c
        else: return frompd(q, I)
    return mk('div', (a, b), I)

def intmod(a, b):
    if b.op == 'const':
        n = b.args[0]
        if a.op == 'const': return IC(a.args[0] % n)
        r = {}
        for m, c in pd(a).items():
            c2 = c % n
            r[m] = c2
        rt = frompd(r, I)
        if rt.op == 'const': return IC(rt.args[0] % n)
        return mk('mod', (rt, b), I)
    if a.op == 'const' and a.args[0] == 0: return a
    return mk('mod', (a, b), I)

# ---------- booleans ----------
def _normle(p):
    """p<=0 for Int: divide by gcd and tighten"""
    d = pd(p)
    g = 0
    for m, c in d.items():
        if m != ():
            g = gcd(g, int(c))
    if g > 1:
        nd = {}
        for m, c in d.items():
            if m == ():
                # sum g*x + c <= 0  <=> sum x <= floor(-c/g)
                nd[m] = -((-c) // g)
            else:
                nd[m] = c / g
        p = frompd(nd, I)
    return p

def le(a, b):
    if a.sort != b.sort:
        a, b = _co(a, b)
    p = sub(a, b)
    if p.op == 'const': return const(p.args[0] <= 0, B)
    if p.sort == I:
        p = _normle(p)
        if p.op == 'const': return const(p.args[0] <= 0, B)
        # canonical sign: represent p<=0 with leading coef >0 or as not(-p+1<=0)
        c = pd(p)[max((m for m in pd(p) if m != ()), key=lambda m: [x.id for x in m])]
        if c < 0:
            return mk('not', (mk('le0', (add(neg(p), IC(1)),), B),), B)
        return mk('le0', (p,), B)
    d = pd(p)
    m = max((m for m in d if m != ()), key=lambda m: [x.id for x in m])
    c = d[m]
    if abs(c) != 1: p = scale(p, 1 / abs(c))
    if c < 0:
        return mk('not', (mk('lt0', (neg(p),), B),), B)
    return mk('le0', (p,), B)

def lt(a, b):
    if a.sort != b.sort:
        a, b = _co(a, b)
    if a.sort == I:
        return le(add(a, IC(1)), b)
    return not_(le(b, a))

def ge(a, b): return le(b, a)
def gt(a, b): return lt(b, a)

def eq(a, b):
    if a.sort == B:
        if a is b: return TRUE
        if a.op == 'const': return b if a.args[0] else not_(b)
        if b.op == 'const': return a if b.args[0] else not_(a)
        return or_(and_(a, b), and_(not_(a), not_(b)))
    if a.sort != b.sort:
        a, b = _co(a, b)
    p = sub(a, b)
    if p.op == 'const': return const(p.args[0] == 0, B)
    d = pd(p)
    m0 = max((m for m in d if m != ()), key=lambda m: [x.id for x in m])
    c0 = d[m0]
    if p.sort == I:
        g = 0
        for m, c in d.items():
            if m != (): g = gcd(g, int(c))
        cc = d.get((), 0)
        if cc % g != 0: return FALSE
        if c0 < 0: g = -g
        if g != 1: p = scale(p, Fraction(1, g))
    else:
        if c0 != 1: p = scale(p, 1 / c0)
    # distribute over ite with constant branches (keeps flags readable)
    return mk('eq0', (p,), B)

def ne(a, b): return not_(eq(a, b))

def not_(a):
    if a is TRUE: return FALSE
    if a is FALSE: return TRUE
    if a.op == 'not': return a.args[0]
    return mk('not', (a,), B)

def and_(*xs):
    out = []
    for x in xs:
        if x is FALSE: return FALSE
        if x is TRUE: continue
        if x.op == 'and':
            for y in x.args:
                if y not in out: out.append(y)
        elif x not in out: out.append(x)
    s = set(out)
    for x in out:
        if not_(x) in s: return FALSE
    if not out: return TRUE
    if len(out) == 1: return out[0]
    return mk('and', tuple(sorted(out, key=lambda t: t.id)), B)

def or_(*xs):
    out = []
    for x in xs:
        if x is TRUE: return TRUE
        if x is FALSE: continue
        if x.op == 'or':
            for y in x.args:
                if y not in out: out.append(y)
        elif x not in out: out.append(x)
    s = set(out)
    for x in out:
        if not_(x) in s: return TRUE
    if not out: return FALSE
    if len(out) == 1: return out[0]
    # absorb: (p & q) | (p & !q) = p  (binary case only)
    if len(out) == 2:
        a = set(out[0].args) if out[0].op == 'and' else {out[0]}
        b = set(out[1].args) if out[1].op == 'and' else {out[1]}
        com = a & b
        ra, rb = a - com, b - com
        if not ra or not rb:
            return and_(*com)
        if len(ra) == 1 and len(rb) == 1:
            x, = ra; y, = rb
            if not_(x) is y: return and_(*com)
        # (p & a) | (!p) = !p | a
        if not com and len(rb) == 1:
            y, = rb
            if not_(y) in ra: return or_(y, and_(*(ra - {not_(y)})))
        if not com and len(ra) == 1:
            y, = ra
            if not_(y) in rb: return or_(y, and_(*(rb - {not_(y)})))
    return mk('or', tuple(sorted(out, key=lambda t: t.id)), B)

def implies(a, b): return or_(not_(a), b)

def ite(c, a, b):
    if c is TRUE: return a
    if c is FALSE: return b
    if a is b: return a
    if a.sort != b.sort:
        a, b = _co(a, b)
    if c.op == 'not':
        return ite(c.args[0], b, a)
    if a.sort == B:
        if a is TRUE: return or_(c, b)
        if a is FALSE: return and_(not_(c), b)
        if b is TRUE: return or_(not_(c), a)
        if b is FALSE: return and_(c, a)
        return or_(and_(c, a), and_(not_(c), b))
    # ite(c, ite(c,x,y), b) = ite(c,x,b)
    if a.op == 'ite' and a.args[0] is c: a = a.args[1]
    if b.op == 'ite' and b.args[0] is c: b = b.args[2]
    if a is b: return a
    # nested same branch: ite(c, ite(d,x,b), b) = ite(c&d, x, b)
    if a.op == 'ite' and a.args[2] is b:
        return ite(and_(c, a.args[0]), a.args[1], b)
    if b.op == 'ite' and b.args[1] is a:
        return ite(or_(c, b.args[0]), a, b.args[2])
    return mk('ite', (c, a, b), a.sort)

def constree(t, n=40):
    """is t a case distinction between constants"""
    st = [t]
    if t.op != 'ite': return False
    while st:
        x = st.pop(); n -= 1
        if n < 0: return False
        if x.op == 'ite': st += x.args[1:]
        elif x.op != 'const': return False
    return True
def maptree(t, f): return ite(t.args[0], maptree(t.args[1], f), maptree(t.args[2], f)) if t.op == 'ite' else f(t)

def app(fname, sort, *args):
    return mk('app', (fname,) + tuple(args), sort)

def rmax(a, b):
    """canonical max"""
    if a is b: return a
    if a.op == 'const' and b.op == 'const': return a if a.args[0] >= b.args[0] else b
    return ite(le(a, b), b, a) if True else None
def rmin(a, b):
    return ite(le(a, b), a, b)
def rabs(a):
    if a.op == 'const': return const(abs(a.args[0]), a.sort)
    return ite(le(a, const(0, a.sort)), neg(a), a)

# ---------- binders ----------
def height(t):
    """max binder height of sums/folds inside t"""
    if t._h is not None: return t._h
    h = 0
    for x in children(t):
        h = max(h, height(x))
    if t.op in ('sum', 'fold'):
        h = max(h, t.args[-1])
    t._h = h
    return h

def bvar(h): return var('%%b%d' % h, I)

def msum(lo, hi, v, body):
    """SUM_{lo<=v<hi} body ; v a var T"""
    if body.op == 'const' and body.args[0] == 0: return body
    if lo is hi: return const(0, body.sort)
    k = sub(hi, lo)
    if k.op == 'const':
        if k.args[0] <= 0: return const(0, body.sort)
        if k.args[0] <= 4:
            r = const(0, body.sort)
            for j in range(int(k.args[0])):
                r = add(r, subst(body, {v: add(lo, IC(j))}))
            return r
    if v not in fv(body):
        n = ite(le(lo, hi), sub(hi, lo), IC(0))
        return mul(n if body.sort == I else toR(n), body) if True else None
    # pull out numeric content (leading coefficient)
    d = pd(body)
    if len(d) == 1:
        (m, c), = d.items()
        out = [x for x in m if v not in fv(x)]
        inn = [x for x in m if v in fv(x)]
        if out or c != 1:
            r = msum(lo, hi, v, frompd({tuple(inn): Fraction(1)}, body.sort))
            r = mul(r, frompd({tuple(out): c}, body.sort))
            return r
    if body.op == 'ite' and v not in fv(body.args[0]):
        return ite(body.args[0], msum(lo, hi, v, body.args[1]), msum(lo, hi, v, body.args[2]))
    h = height(body) + 1
    b = subst(body, {v: bvar(h)})
    return mk('sum', (lo, hi, b, h), body.sort)

def mfold(kind, init, lo, hi, v, body):
    """fold of kind ('max','min') over lo<=v<hi, starting at init"""
    k = sub(hi, lo)
    if k.op == 'const' and k.args[0] <= 0: return init
    h = height(body) + 1
    b = subst(body, {v: bvar(h)})
    return mk('fold', (kind, init, lo, hi, b, h), body.sort)

def opensum(t):
    lo, hi, b, h = t.args
    v = fresh('q', I)
    return lo, hi, v, subst(b, {bvar(h): v})

def openfold(t):
    kind, init, lo, hi, b, h = t.args
    v = fresh('q', I)
    return kind, init, lo, hi, v, subst(b, {bvar(h): v})

def children(t):
    op = t.op
    if op in ('const', 'var'): return ()
    if op == 'poly':
        s = []
        for m, c in t.args:
            s.extend(m)
        return s
    if op == 'app': return t.args[1:]
    if op == 'sum': return t.args[:3]
    if op == 'fold': return t.args[1:5]
    return t.args

_EMPTY = frozenset()
def fv(t):
    """free vars (bound placeholders included in subterms but removed at binder)"""
    if t._fv is not None: return t._fv
    if t.op == 'const': r = _EMPTY
    elif t.op == 'var': r = frozenset((t,))
    elif t.op == 'sum':
        r = fv(t.args[0]) | fv(t.args[1]) | (fv(t.args[2]) - {bvar(t.args[3])})
    elif t.op == 'fold':
        r = fv(t.args[1]) | fv(t.args[2]) | fv(t.args[3]) | (fv(t.args[4]) - {bvar(t.args[5])})
    else:
        s = set()
        for x in children(t): s |= fv(x)
        r = frozenset(s)
    t._fv = r
    return r

def rebuild(t, f):
    """rebuild t with children mapped by f (through smart constructors)"""
    op = t.op
    if op in ('const', 'var'): return t
    if op == 'poly':
        r = const(0, t.sort)
        acc = {}
        for m, c in t.args:
            x = const(c, t.sort)
            for a in m:
                x = mul(x, f(a))
            for mm, cc in pd(x).items():
                acc[mm] = acc.get(mm, 0) + cc
        return frompd(acc, t.sort)
    if op == 'prod': return mul(f(t.args[0]), f(t.args[1]))
    if op == 'inv': return inv(f(t.args[0]))
    if op == 'toR': return toR(f(t.args[0]))
    if op == 'div': return intdiv(f(t.args[0]), f(t.args[1]))
    if op == 'mod': return intmod(f(t.args[0]), f(t.args[1]))
    if op == 'ite':
        c = f(t.args[0])
        if c is TRUE: return f(t.args[1])
        if c is FALSE: return f(t.args[2])
        return ite(c, f(t.args[1]), f(t.args[2]))
    if op == 'le0': x = f(t.args[0]); return le(x, const(0, x.sort))
    if op == 'lt0': x = f(t.args[0]); return lt(x, const(0, x.sort))
    if op == 'eq0': x = f(t.args[0]); return eq(x, const(0, x.sort))
    if op == 'not': return not_(f(t.args[0]))
    if op == 'and': return and_(*[f(x) for x in t.args])
    if op == 'or': return or_(*[f(x) for x in t.args])
    if op == 'app': return mkapp(t.args[0], t.sort, *[f(x) for x in t.args[1:]])
    raise NotImplementedError(op)

# smart app constructors (registered rewrite rules, e.g. exp(0)=1)
APPRULES = {}
def mkapp(fname, sort, *args):
    r = APPRULES.get(fname)
    if r is not None:
        x = r(sort, *args)
        if x is not None: return x
    return app(fname, sort, *args)

def subst(t, mp, _memo=None):
    """capture-free substitution var->term (bound vars never occur in the range)"""
    if not mp: return t
    keys = frozenset(mp)
    memo = {}
    def go(t):
        if not (fv(t) & keys): return t
        r = memo.get(t)
        if r is not None: return r
        if t.op == 'var': r = mp[t]
        elif t.op == 'sum':
            lo, hi, b, h = t.args
            if height_of_range(mp) == 0 and bvar(h) not in keys:
                v = fresh('q', I)
                b2 = go2(b, h, v)
                r = msum(go(lo), go(hi), v, b2)
            else:
                v = fresh('q', I)
                b2 = go2(b, h, v)
                r = msum(go(lo), go(hi), v, b2)
        elif t.op == 'fold':
            kind, init, lo, hi, b, h = t.args
            v = fresh('q', I)
            b2 = go2(b, h, v)
            r = mfold(kind, go(init), go(lo), go(hi), v, b2)
        else: r = rebuild(t, go)
        memo[t] = r
        return r
    def go2(b, h, v):
        m2 = {k: x for k, x in mp.items() if k is not bvar(h)}
        m2[bvar(h)] = v
        return subst(b, m2)
    return go(t)

def height_of_range(mp): return 0

def replace_terms(t, mp):
    """replace arbitrary subterms (by identity), not under binders unless closed there"""
    memo = {}
    def go(t):
        if t in mp: return mp[t]
        r = memo.get(t)
        if r is not None: return r
        if t.op == 'sum':
            lo, hi, v, b = opensum(t)
            r = msum(go(lo), go(hi), v, go(b))
        elif t.op == 'fold':
            kind, init, lo, hi, v, b = openfold(t)
            r = mfold(kind, go(init), go(lo), go(hi), v, go(b))
        else: r = rebuild(t, go)
        memo[t] = r
        return r
    return go(t)

def map_terms(t, f):
    """bottom-up map: f(rebuilt) -> term"""
    memo = {}
    def go(t):
        r = memo.get(t)
        if r is not None: return r
        if t.op == 'sum':
            lo, hi, v, b = opensum(t)
            r = msum(go(lo), go(hi), v, go(b))
        elif t.op == 'fold':
            kind, init, lo, hi, v, b = openfold(t)
            r = mfold(kind, go(init), go(lo), go(hi), v, go(b))
        else: r = rebuild(t, go)
        r = f(r)
        memo[t] = r
        return r
    return go(t)

def subterms(t, pred, under=True):
    out, seen = [], set()
    st = [t]
    while st:
        x = st.pop()
        if x in seen: continue
        seen.add(x)
        if pred(x): out.append(x)
        if x.op in ('sum', 'fold') and not under:
            continue
        st.extend(children(x))
    return out

def pp(t, d=0):
    if d > 12: return '...'
    op = t.op
    if op == 'const':
        v = t.args[0]
        if isinstance(v, Fraction):
            return str(v) if v.denominator == 1 or v.denominator < 10**6 else repr(float(v))
        return str(v)
    if op == 'var': return t.args[0]
    if op == 'poly':
        s = []
        for m, c in t.args:
            ms = '*'.join(pp(x, d + 1) for x in m)
            if m == (): s.append(pp(const(c, R)))
            elif c == 1: s.append(ms)
            elif c == -1: s.append('-' + ms)
            else: s.append(pp(const(c, R)) + '*' + ms)
        return '(' + ' + '.join(s) + ')'
    if op == 'app':
        return '%s(%s)' % (t.args[0], ', '.join(pp(x, d + 1) for x in t.args[1:]))
    if op == 'sum': return 'SUM[%s<=%%b%d<%s](%s)' % (pp(t.args[0], d+1), t.args[3], pp(t.args[1], d+1), pp(t.args[2], d + 1))
    if op == 'fold': return '%s{%s; %s<=%%b%d<%s; %s}' % (t.args[0], pp(t.args[1],d+1), pp(t.args[2],d+1), t.args[5], pp(t.args[3],d+1), pp(t.args[4],d+1))
    if op == 'ite': return 'ite(%s, %s, %s)' % tuple(pp(x, d + 1) for x in t.args)
    if op == 'le0': return '%s<=0' % pp(t.args[0], d + 1)
    if op == 'lt0': return '%s<0' % pp(t.args[0], d + 1)
    if op == 'eq0': return '%s==0' % pp(t.args[0], d + 1)
    if op == 'not': return '!(%s)' % pp(t.args[0], d + 1)
    return '%s(%s)' % (op, ', '.join(pp(x, d + 1) for x in t.args if isinstance(x, T)))
