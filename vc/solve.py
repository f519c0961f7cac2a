"""Discharging obligations: syntactic normalisation, z3 (cvc5 as second opinion)."""
import time, itertools, os
import z3
from terms import *
import terms as tm

STATS = dict(z3_queries=0, z3_time=0.0, syntactic=0, cache=0, cvc5=0)
# axiom schemas: fname -> f(app term) -> list of Bool facts
APPFACTS = {}
TIMEOUT = int(os.environ.get('VC_TIMEOUT_MS', '4000'))

class Z:
    """translator with memo (terms are unique and immutable, so translations are kept)"""
    MEMO, FUNS = {True: {}, False: {}}, {}
    def __init__(self, linear):
        self.linear = linear
        self.memo = Z.MEMO[linear]
        if len(self.memo) > 400000: self.memo.clear()
        self.funs = Z.FUNS

    def fun(self, name, sorts, ret):
        k = (name, tuple(sorts), ret)
        f = self.funs.get(k)
        if f is None:
            m = {I: z3.IntSort(), R: z3.RealSort(), B: z3.BoolSort()}
            f = z3.Function(name + '/' + ''.join(sorts), *([m[s] for s in sorts] + [m[ret]]))
            self.funs[k] = f
        return f

    def mono(self, m, sort):
        if len(m) == 1: return self(m[0])
        if self.linear:
            nm = 'mono' + '_'.join(str(x.id) for x in m)
            return z3.Int(nm) if sort == I else z3.Real(nm)
        r = self(m[0])
        for x in m[1:]:
            r = r * self(x)
        return r

    def __call__(self, t):
        r = self.memo.get(t)
        if r is None:
            r = self._go(t)
            self.memo[t] = r
        return r

    def _go(self, t):
        op = t.op
        if op == 'const':
            v = t.args[0]
            if t.sort == B: return z3.BoolVal(bool(v))
            if t.sort == I: return z3.IntVal(int(v))
            return z3.RealVal(str(v.numerator) + '/' + str(v.denominator)) if v.denominator != 1 else z3.RealVal(str(v.numerator))
        if op == 'var':
            n = t.args[0]
            return z3.Int(n) if t.sort == I else z3.Real(n) if t.sort == R else z3.Bool(n)
        if op == 'poly':
            terms = []
            for m, c in t.args:
                k = self(const(c, t.sort))
                if m == (): terms.append(k)
                elif c == 1: terms.append(self.mono(m, t.sort))
                else: terms.append(k * self.mono(m, t.sort))
            return z3.Sum(terms) if len(terms) > 1 else terms[0]
        if op == 'prod':
            if self.linear:
                return z3.Int('prod%d' % t.id) if t.sort == I else z3.Real('prod%d' % t.id)
            return self(t.args[0]) * self(t.args[1])
        if op == 'inv': return self.fun('inv', [R], R)(self(t.args[0]))
        if op == 'toR': return z3.ToReal(self(t.args[0]))
        if op in ('div', 'mod'):
            a, b = t.args
            if b.op == 'const':
                return self(a) / self(b) if op == 'div' else self(a) % self(b)
            return self.fun(op + '_s', [I, I], I)(self(a), self(b))
        if op == 'ite': return z3.If(self(t.args[0]), self(t.args[1]), self(t.args[2]))
        if op == 'le0': return self(t.args[0]) <= 0
        if op == 'lt0': return self(t.args[0]) < 0
        if op == 'eq0': return self(t.args[0]) == 0
        if op == 'not': return z3.Not(self(t.args[0]))
        if op == 'and': return z3.And([self(x) for x in t.args])
        if op == 'or': return z3.Or([self(x) for x in t.args])
        if op == 'app':
            if len(t.args) == 1:
                n = t.args[0]
                return z3.Int('c!' + n) if t.sort == I else z3.Real('c!' + n) if t.sort == R else z3.Bool('c!' + n)
            return self.fun(t.args[0], [x.sort for x in t.args[1:]], t.sort)(*[self(x) for x in t.args[1:]])
        if op in ('sum', 'fold'):
            return z3.Int('S%d' % t.id) if t.sort == I else z3.Real('S%d' % t.id)
        raise NotImplementedError(op)

def _iter_sub(ts):
    seen = set(); st = list(ts)
    while st:
        x = st.pop()
        if x in seen: continue
        seen.add(x); yield x
        if x.op in ('sum', 'fold'):
            # do not look under the binder (bound placeholders must not leak)
            if x.op == 'sum': st.extend(x.args[:2])
            else: st.extend(x.args[1:4])
            continue
        st.extend(children(x))

def axioms(ts, rounds=2):
    """instances of axiom schemas for the terms occurring in ts"""
    out, done = [], set()
    work = list(ts)
    for _ in range(rounds):
        new = []
        for x in _iter_sub(work):
            if x in done: continue
            done.add(x)
            if x.op == 'app' and x.args[0] in APPFACTS:
                new += APPFACTS[x.args[0]](x)
            elif x.op in ('div', 'mod') and x.args[1].op != 'const':
                a, b = x.args
                q, r = mk('div', (a, b), I), mk('mod', (a, b), I)
                pos = gt(b, IC(0))
                new += [implies(pos, eq(a, add(mul(b, q), r))), implies(pos, and_(ge(r, IC(0)), lt(r, b))),
                        implies(and_(pos, ge(a, IC(0))), ge(q, IC(0)))]
            elif x.op == 'sum' and x.sort == I:
                lo, hi, v, b = opensum(x)
                # a sum of provably non-negative terms is non-negative (registered bodies only)
                if _nonneg_body(b):
                    new.append(ge(x, IC(0)))
        if not new: break
        out += new
        work = new
    return out

def _nonneg_body(b):
    """syntactically non-negative: polynomial with nonneg coefs over registered nonneg atoms"""
    for m, c in pd(b).items():
        if c < 0: return False
        for x in m:
            if not (x.op == 'app' and x.args[0] in NONNEG): return False
    return True
NONNEG = set()

_nlmemo, _monomemo, _rngmemo = {}, {}, {}
def nl_lemmas(ts):
    """products of (p<=0) facts with non-negative factors, when no new monomials arise"""
    monos = set(); facts = []
    pols = []
    for x in _iter_sub(ts):
        if x.op in ('le0', 'eq0') and x.args[0].sort == I:
            pols.append((x.op, x.args[0]))
        if x.op == 'poly' and x.sort == I:
            for m, c in x.args:
                if len(m) >= 2: monos.add(m)
    if not monos: return []
    fac = {}
    for m in monos:
        for i in range(len(m)):
            fac.setdefault(m[i], 0)
    out = []
    z = IC(0)
    lin = []
    for t in ts:
        for x in (t.args if t.op == 'and' else (t,)):
            if x.op == 'le0' and x.args[0].sort == I: lin.append(x.args[0])
            elif x.op == 'not' and x.args[0].op == 'le0' and x.args[0].args[0].sort == I:
                lin.append(add(neg(x.args[0].args[0]), IC(1)))
            elif x.op == 'eq0' and x.args[0].sort == I:
                lin.append(x.args[0]); lin.append(neg(x.args[0]))
    for y in fac:
        for p in lin:
            k = (p, y); e = _nlmemo.get(k)
            if e is None:
                if len(pd(p)) > 6: e = ()
                else:
                    q = mul(p, y); hm = [m for m in pd(q) if len(m) >= 2]
                    e = (hm, implies(and_(ge(y, z), le(p, z)), le(q, z))) if hm else ()
                if len(_nlmemo) > 500000: _nlmemo.clear()
                _nlmemo[k] = e
            if e:
                for m in e[0]:
                    if m not in monos: break
                else: out.append(e[1])
    for m in monos:
        l = _monomemo.get(m)
        if l is None:
            l = []; xy = frompd({m: Fraction(1)}, I)
            if len(m) == 2:
                x, y = m
                l.append(implies(and_(ge(x, z), ge(y, z)), ge(xy, z)))
                l.append(implies(and_(ge(x, IC(1)), ge(y, z)), ge(xy, y)))
                l.append(implies(and_(ge(x, z), ge(y, IC(1))), ge(xy, x)))
            elif len(m) == 3: l.append(implies(and_(*[ge(x, z) for x in m]), ge(xy, z)))
            _monomemo[m] = l
        out += l
    return out

_cache = {}
def clear_cache(): _cache.clear()

def _flat(facts):
    out = []
    for f in facts:
        if f.op == 'and': out.extend(f.args)
        else: out.append(f)
    return out

def quick(goal, fs):
    """syntactic entailment"""
    if goal is TRUE: return True
    if goal in fs: return True
    if goal.op == 'and':
        return all(quick(g, fs) for g in goal.args)
    if goal.op == 'or':
        return any(quick(g, fs) for g in goal.args)
    p = _lep(goal)
    if p is not None and p.sort == I:
        key, c = _split(p)
        b = fs_bounds(fs).get(key)
        if b is not None and c <= b: return True
    return False

def _lep(g):
    if g.op == 'le0': return g.args[0]
    if g.op == 'not' and g.args[0].op == 'le0' and g.args[0].args[0].sort == I:
        return add(neg(g.args[0].args[0]), IC(1))
    return None

def _split(p):
    d = pd(p)
    c = d.get((), Fraction(0))
    return frozenset((m, k) for m, k in d.items() if m != ()), c

_fsb = {}
def fs_bounds(fs):
    b = _fsb.get(fs)
    if b is None:
        b = {}
        for f in fs:
            for p in ([_lep(f)] if f.op != 'eq0' else ([f.args[0], neg(f.args[0])] if f.args[0].sort == I else [])):
                if p is None or p.sort != I: continue
                k, c = _split(p)
                if k not in b or c > b[k]: b[k] = c
        if len(_fsb) > 4000: _fsb.clear()
        _fsb[fs] = b
    return b

def _relevant(fs, goal):
    """facts connected to the goal by shared variables/apps (transitively)"""
    def syms(t):
        s = _symc.get(t)
        if s is None:
            s = set()
            for x in _iter_sub([t]):
                if x.op == 'var' or (x.op == 'app' and len(x.args) == 1): s.add(x)
                elif x.op in ('sum', 'fold'): s.add(x)
                elif x.op == 'app' and not fv(x): s.add(x)
            s = frozenset(s)
            _symc[t] = s
        return s
    want = set(syms(goal))
    rem = list(fs); out = []
    ch = True
    while ch:
        ch = False
        r2 = []
        for f in rem:
            s = syms(f)
            if not s or (s & want):
                out.append(f)
                if not s <= want:
                    want |= s; ch = True
            else: r2.append(f)
        rem = r2
    return out
_symc = {}

def prove(facts, goal, timeout=None, nl=True):
    """True iff facts |= goal (False: not proved)"""
    if goal is TRUE: return True
    fs = frozenset(_flat(facts))
    if FALSE in fs: return True
    if goal is FALSE and any(f.op == 'not' and f.args[0] in fs for f in fs): return True
    if quick(goal, fs):
        STATS['syntactic'] += 1
        return True
    if goal.op == 'and':
        return all(prove(facts, g, timeout, nl) for g in goal.args)
    key = (fs, goal, nl)
    r = _cache.get(key)
    if r is not None and (r or timeout is None or timeout <= TIMEOUT):
        STATS['cache'] += 1
        return r
    r = _z3prove(fs, goal, timeout or TIMEOUT, nl)
    if len(_cache) > 200000: _cache.clear()
    _cache[key] = r
    return r

APPRANGE = {}    # function name -> (lo, hi)
RANGES = {}      # Int variable -> (lo, hi): machine-integer ranges
def _rng(x, r):
    l = _rngmemo.get((x, r))
    if l is None:
        lo, hi = r; l = _rngmemo[(x, r)] = ([ge(x, IC(int(lo)))] if lo is not None else []) + ([le(x, IC(int(hi)))] if hi is not None else [])
    return l
def range_facts(ts):
    out = []
    for x in _iter_sub(ts):
        if x.op == 'var':
            if x in RANGES: out += _rng(x, RANGES[x])
        elif x.op == 'app' and x.sort == I and x.args[0] in APPRANGE: out += _rng(x, APPRANGE[x.args[0]])
    return out

LASTMODEL = [None]
SCALE, SEED = 1, 0        # a task that fails is tried once more with larger limits and another seed
def limits(s, ms):
    """limits count solver steps, not seconds: a proof does not depend on how busy the machine is"""
    s.set('rlimit', int(ms * 3000 * SCALE)); s.set('timeout', int(ms * 12 * SCALE))
    if SEED: s.set('random_seed', SEED)
SIMPCACHE = {}
def _z3prove(fs, goal, timeout, nl):
    fl = list(fs) if goal is FALSE else _relevant(fs, goal)
    ts = list(fl) + [goal]
    ax = axioms(ts) + range_facts(ts)
    t0 = time.time()
    # pass 1: linear arithmetic with monomials opaque + product lemmas
    lem = nl_lemmas(ts + ax)
    z = Z(True)
    s = z3.SolverFor('QF_UFLIRA') if False else z3.Solver()
    limits(s, timeout)
    cx, sv, put = s.ctx.ref(), s.solver, z3.Z3_solver_assert
    for f in itertools.chain(fl, ax, lem):
        e = z(f)
        put(cx, sv, e.ast) if isinstance(e, z3.AstRef) else s.add(e)
    s.add(z3.Not(z(goal)))
    r = s.check()
    STATS['z3_queries'] += 1; STATS['z3_time'] += time.time() - t0
    if r == z3.unsat: return True
    if r == z3.sat: LASTMODEL[0] = s.model()
    if not nl or not any(x.op in ('prod', 'inv') or x.op == 'poly' and any(len(m) > 1 for m, c in x.args) for x in _iter_sub(ts + ax)): return False
    t0 = time.time()
    z = Z(False)
    s = z3.Solver()
    limits(s, timeout)
    ia = []
    for x in _iter_sub(ts):
        if x.op == 'inv':
            ia.append(or_(eq(x.args[0], RC(0)), eq(mul(x.args[0], x), RC(1))))
            ia.append(implies(gt(x.args[0], RC(0)), gt(x, RC(0))))
            ia.append(implies(lt(x.args[0], RC(0)), lt(x, RC(0))))
    for f in itertools.chain(fl, ax, lem, ia): s.add(z(f))
    s.add(z3.Not(z(goal)))
    r = s.check()
    STATS['z3_queries'] += 1; STATS['z3_time'] += time.time() - t0
    return r == z3.unsat

def decide(facts, c, timeout=1500, nl=False):
    """True / False / None"""
    if c is TRUE: return True
    if c is FALSE: return False
    if prove(facts, c, timeout, nl): return True
    if prove(facts, not_(c), timeout, nl): return False
    return None

def infeasible(facts, timeout=1500):
    return prove(facts, FALSE, timeout, nl=False) if facts else False

def _z3unsat(facts): return prove(facts, FALSE)

# ---------- simplification under facts ----------
def simp(t, facts, depth=0):
    """resolve ite conditions that the facts decide"""
    memo = {}
    def go(t):
        r = memo.get(t)
        if r is not None: return r
        if t.op == 'ite':
            c = t.args[0]
            d = decide(facts, c)
            if d is True: r = go(t.args[1])
            elif d is False: r = go(t.args[2])
            else: r = ite(c, go(t.args[1]), go(t.args[2]))
        elif not _has_ite(t) or t.op in ('const', 'var'): r = t
        elif t.op in ('sum', 'fold'): r = _bounds(t, go)
        else: r = rebuild(t, go)
        memo[t] = r
        return r
    return go(t)

def _bounds(t, go):
    """a SUM or FOLD with its bounds mapped"""
    if t.op == 'fold': return t
    lo, hi, v, b = opensum(t)
    return msum(go(lo), go(hi), v, b)

_hi = {}
def _has_ite(t):
    r = _hi.get(t)
    if r is None:
        r = t.op == 'ite' or any(_has_ite(x) for x in (t.args[:2] if t.op == 'sum' else () if t.op == 'fold' else children(t)))
        _hi[t] = r
    return r

def find_ite(t):
    """some ite condition in t outside binders (innermost-first so that conds are ite-free)"""
    best = None
    for x in _iter_sub([t]):
        if x.op == 'ite' and not _has_ite(x.args[0]):
            if best is None or x.args[0].id < best.id: best = x.args[0]
    return best

# ---------- sums ----------
def group_sums(t):
    """t = rest + sum_k cof_k * S_k ; returns (rest, [(cof, S)])"""
    rest, parts = {}, []
    for m, c in pd(t).items():
        ss = [x for x in m if x.op == 'sum']
        if len(ss) == 1:
            mm = list(m); mm.remove(ss[0])
            parts.append((frompd({tuple(mm): c}, t.sort), ss[0]))
        else: rest[m] = c
    return frompd(rest, t.sort), parts

def _strides(body, v):
    """candidate strides of v inside integer arguments of apps"""
    g = 0
    for x in subterms(body, lambda x: x.op == 'app'):
        for a in x.args[1:]:
            if isinstance(a, T) and a.sort == I:
                for m, c in pd(a).items():
                    if m == (v,): g = tm.gcd(g, int(abs(c)))
    return g

def merge_lanes(t, facts):
    """SUM_{q<N} G(wq) + ... + SUM_{q<N} G(wq+w-1)  ->  SUM_{t<wN} G(t)"""
    rest, parts = group_sums(t)
    if len(parts) < 2: return t
    byb = {}
    for cof, s in parts:
        byb.setdefault((cof, s.args[0], s.args[1]), []).append(s)
    changed = False
    out = rest
    for (cof, lo, hi), ss in byb.items():
        if len(ss) < 2:
            for s in ss: out = add(out, mul(cof, s))
            continue
        v = fresh('q', I)
        bodies = [subst(s.args[2], {bvar(s.args[3]): v}) for s in ss]
        w = _strides(bodies[0], v)
        left = list(range(len(ss)))
        if w > 1:
            done = False
            # choose base lane among candidates
            for b in list(left):
                cand = _relane(bodies[b], v, w, 0)
                if cand is None: continue
                tt, K = cand
                used = {}
                for l in range(w):
                    for j in left:
                        if j in used.values(): continue
                        r = _relane(bodies[j], v, w, l, tt)
                        if r is not None and r[1] is K:
                            used[l] = j; break
                    else: break
                if len(used) == w:
                    out = add(out, mul(cof, msum(scale_i(lo, w), scale_i(hi, w), tt, K)))
                    left = [j for j in left if j not in used.values()]
                    changed = True
                    break
        for j in left: out = add(out, mul(cof, ss[j]))
    return out if changed else t

def scale_i(t, k): return tm.scale(t, k)

def _relane(body, v, w, l, tt=None):
    """body[q := (t-l)/w] if integral"""
    if tt is None: tt = fresh('q', I)
    marker = fresh('wq', I)
    bad = []
    memo = {}
    def go(x):
        r = memo.get(x)
        if r is not None: return r
        if v not in fv(x): r = x
        elif x.sort == I and (x.op == 'poly' or x is v):
            d = {}
            for m, c in pd(x).items():
                if m == (v,):
                    if c % w != 0: bad.append(1); d[m] = c; continue
                    k = c / w
                    d[(tt,)] = d.get((tt,), 0) + k
                    d[()] = d.get((), 0) - k * l
                elif v in m: bad.append(1); d[m] = c
                else:
                    d[m] = d.get(m, 0) + c
            r = frompd(d, I)
            if v in fv(r): bad.append(1)
        elif x.op in ('sum', 'fold'):
            if x.op == 'sum':
                lo, hi, u, b = opensum(x)
                r = msum(go(lo), go(hi), u, go(b))
            else: bad.append(1); r = x
        elif x.op == 'var': bad.append(1); r = x
        else: r = rebuild(x, go)
        memo[x] = r
        return r
    r = go(body)
    if bad: return None
    return tt, r

def merge_adjacent(t, facts):
    """SUM[a,b)F + SUM[b,c)F -> SUM[a,c)F (also after shifting indices)"""
    for _ in range(8):
        rest, parts = group_sums(t)
        if len(parts) < 2: return t
        hit = None
        for i in range(len(parts)):
            for j in range(len(parts)):
                if i == j: continue
                (c1, s1), (c2, s2) = parts[i], parts[j]
                if c1 is not c2: continue
                lo1, hi1, v1, b1 = opensum(s1)
                lo2, hi2, v2, b2 = opensum(s2)
                # shift s2 so that it starts at hi1
                sh = sub(lo2, hi1)
                b2s = subst(b2, {v2: add(v1, sh)})
                if b2s is b1:
                    n2 = sub(hi2, lo2)
                    if prove(facts, le(lo1, hi1)) and prove(facts, ge(n2, IC(0))):
                        hit = (i, j, c1, msum(lo1, add(hi1, n2), v1, b1)); break
            if hit: break
        if not hit: return t
        i, j, c1, s = hit
        r = add(rest, mul(c1, s))
        for k, (c, x) in enumerate(parts):
            if k not in (i, j): r = add(r, mul(c, x))
        t = r
    return t

def peel(t, facts):
    """c*SUM[a,b)F - c*SUM[a,d)F -> +-SUM between the ends (expanded when it is a constant number of terms)"""
    for _ in range(16):
        rest, parts = group_sums(t)
        if len(parts) < 2: return t
        hit = None
        for i in range(len(parts)):
            c1, s1 = parts[i]
            for j in range(len(parts)):
                c2, s2 = parts[j]
                if i == j or neg(c1) is not c2: continue
                lo1, hi1, v1, b1 = opensum(s1)
                lo2, hi2, v2, b2 = opensum(s2)
                b2 = subst(b2, {v2: v1})
                if b1 is not b2: continue
                if lo1 is lo2:
                    n = sub(hi1, hi2)
                    if not prove(facts, ge(n, IC(0))) or not prove(facts, le(lo1, hi2)): continue
                    a, z = hi2, hi1
                elif hi1 is hi2:
                    n = sub(lo2, lo1)
                    if not prove(facts, ge(n, IC(0))) or not prove(facts, le(lo2, hi1)): continue
                    a, z = lo1, lo2
                else: continue
                if n.op == 'const' and n.args[0] <= 64:
                    x = const(0, b1.sort)
                    for q in range(int(n.args[0])): x = add(x, subst(b1, {v1: add(a, IC(q))}))
                else: x = msum(a, z, v1, b1)
                hit = (i, j, mul(c1, x)); break
            if hit: break
        if not hit: return t
        i, j, r = hit
        r = add(rest, r)
        for k, (c, x) in enumerate(parts):
            if k not in (i, j): r = add(r, mul(c, x))
        t = r
    return t

def rational_zero(d, facts):
    """clear the denominators of d (each proved non-zero) and compare polynomials"""
    for _ in range(8):
        u = None
        for m in pd(d):
            for x in m:
                if x.op == 'inv' and (u is None or x.id > u.id): u = x
        if u is None: return d.op == 'const' and d.args[0] == 0
        p = u.args[0]
        if not prove(facts, ne(p, RC(0)) if p.sort == R else ne(p, IC(0))): return False
        k = max(m.count(u) for m in pd(d))
        pw = [const(1, d.sort)]
        for i in range(k): pw.append(mul(pw[-1], p))
        acc = const(0, d.sort)
        for m, c in pd(d).items():
            j = m.count(u)
            mm = tuple(x for x in m if x is not u)
            acc = add(acc, mul(frompd({mm: c}, d.sort), pw[k - j]))
        d = acc
        if d.op == 'const': return d.args[0] == 0
    return False

def fold_step(kind, acc, x):
    if kind == 'max': return ite(lt(acc, x), x, acc)
    if kind == 'min': return ite(lt(x, acc), x, acc)
    if kind == 'last':
        if x.op == 'ite':
            if x.args[2].op == 'var' and str(x.args[2].args[0]).startswith('%none'): return ite(x.args[0], x.args[1], acc)
            if x.args[1].op == 'var' and str(x.args[1].args[0]).startswith('%none'): return ite(x.args[0], acc, x.args[2])
    return None

def peel_folds(d, facts):
    """F[lo,hi+n) -> step(F[lo,hi), body(hi)..) when both occur in d"""
    fs = [x for x in _iter_sub([d]) if x.op == 'fold']
    if len(fs) < 2: return d
    for x in fs:
        for y in fs:
            if x is y: continue
            k1, i1, lo1, hi1, v1, b1 = openfold(x)
            k2, i2, lo2, hi2, v2, b2 = openfold(y)
            if k1 != k2 or i1 is not i2 or lo1 is not lo2: continue
            n = sub(hi1, hi2)
            if n.op != 'const' or not 0 < n.args[0] <= 16: continue
            if subst(b2, {v2: v1}) is not b1: continue
            if not prove(facts, le(lo1, hi2)): continue
            acc = y
            for j in range(int(n.args[0])):
                acc = fold_step(k1, acc, subst(b1, {v1: add(hi2, IC(j))}))
                if acc is None: break
            if acc is None: continue
            return peel_folds(tm.replace_terms(d, {x: acc}), facts)
    return d

def normsums(t, facts):
    if t.op == 'ite':
        return ite(t.args[0], normsums(t.args[1], list(facts) + [t.args[0]]), normsums(t.args[2], list(facts) + [not_(t.args[0])]))
    if not any(x.op == 'sum' for x in _iter_sub([t])): return t
    # arguments of apps may contain sums (exp(sum..)): normalise inside-out
    def inner(x):
        if x.op in ('poly', 'sum') and x.sort == R:
            return peel(merge_adjacent(merge_lanes(x, facts), facts), facts)
        return x
    if t.op == 'poly' or t.op == 'sum':
        t = peel(merge_adjacent(merge_lanes(t, facts), facts), facts)
    memo = {}
    def go(x):
        r = memo.get(x)
        if r is not None: return r
        if x.op in ('sum', 'fold', 'const', 'var') or not any(y.op == 'sum' for y in _iter_sub([x])): r = x
        else:
            r = rebuild(x, go)
            r = inner(r)
        memo[x] = r
        return r
    return go(t)

TRACE = []
def prove_eq(a, b, facts, depth=0, budget=None):
    """facts |= a == b, using ite splitting and SUM reasoning"""
    facts = list(facts)
    if budget is None: budget = [400 * SCALE, time.time() + 200 * SCALE]
    if a is b: return True
    if a.sort == B:
        return prove(facts, eq(a, b))
    budget[0] -= 1
    if budget[0] < 0 or time.time() > budget[1]: return False
    d = sub(a, b)
    if d.op == 'const': return d.args[0] == 0 or prove(facts, FALSE)
    d = peel_folds(d, facts)
    if depth < 40:
        c = find_ite(d)
        if c is not None:
            x = decide(facts, c)
            for val in (True, False):
                if x is not None and x is not val: continue
                f2 = facts + ([c if val else not_(c)] if x is None else [])
                if x is None and infeasible(f2): continue
                d2 = _assume(d, c, val)
                if not prove_eq(d2, const(0, d2.sort), f2, depth + 1, budget): return False
            return True
    d = normsums(d, facts)
    if d.op == 'const' and d.args[0] == 0: return True
    if _sums_cancel(d, facts, depth, budget): return True
    if rational_zero(d, facts): return True
    # congruence on matching applications: f(x)-f(y)
    r = _cong(d, facts, depth, budget)
    if r: return True
    if prove(facts, eq(d, const(0, d.sort))): return True
    TRACE.append((d, facts))
    return False

def _assume(t, c, val):
    mp = {}
    def f(x):
        if x is c: return TRUE if val else FALSE
        return x
    memo = {}
    def go(t):
        r = memo.get(t)
        if r is not None: return r
        if t is c: r = TRUE if val else FALSE
        elif t.op in ('const', 'var') or (not _has_ite(t) and t.sort != B): r = t
        elif t.op in ('sum', 'fold'): r = _bounds(t, go)
        else: r = rebuild(t, go)
        memo[t] = r
        return r
    return go(t)

def _sums_cancel(d, facts, depth, budget):
    """d = rest + sums; group by (bounds), prove the combined body cancels pointwise"""
    rest, parts = group_sums(d)
    if not parts: return False
    groups = []
    for cof, s in parts:
        lo, hi, v, b = opensum(s)
        for g in groups:
            n = sub(hi, g[1])
            if g[0] is lo and n.op == 'const' and n.args[0] != 0 and abs(n.args[0]) <= 16:
                n = int(n.args[0])
                if n > 0 and prove(facts, le(lo, g[1])):
                    for q in range(n): rest = add(rest, mul(cof, subst(b, {v: add(g[1], IC(q))})))
                    hi = g[1]
                elif n < 0 and prove(facts, le(lo, hi)):
                    for q in range(-n): rest = add(rest, subst(g[3], {g[2]: add(hi, IC(q))}))
                    g[1] = hi
        for g in groups:
            if (g[0] is lo or prove(facts, eq(g[0], lo))) and (g[1] is hi or prove(facts, eq(g[1], hi))):
                g[3] = add(g[3], mul(cof, subst(b, {v: g[2]}))); break
        else:
            # same length but shifted bounds?
            for g in groups:
                sh = sub(lo, g[0])
                if prove(facts, eq(sub(hi, lo), sub(g[1], g[0]))):
                    g[3] = add(g[3], mul(cof, subst(b, {v: add(g[2], sh)}))); break
            else:
                groups.append([lo, hi, v, mul(cof, b)])
    for lo, hi, v, body in groups:
        f2 = facts + [le(lo, v), lt(v, hi)]
        if prove(f2, FALSE): continue
        if not prove_eq(body, const(0, body.sort), f2, depth + 1, budget): return False
    if rest.op == 'const': return rest.args[0] == 0
    return prove_eq(rest, const(0, rest.sort), facts, depth + 1, budget)

def _cong(d, facts, depth, budget):
    """match atoms f(x), f(y) with provably equal arguments and replace"""
    atoms = []
    for m in pd(d):
        for x in m:
            if x.op in ('app', 'inv', 'fold') and x not in atoms: atoms.append(x)
    mp = {}
    for i in range(len(atoms)):
        if atoms[i] in mp: continue
        for j in range(i + 1, len(atoms)):
            x, y = atoms[i], atoms[j]
            if y in mp or x.op != y.op: continue
            if x.op == 'app':
                if x.args[0] != y.args[0] or len(x.args) != len(y.args): continue
                ok = all(p is q or (p.sort == q.sort and prove_eq(p, q, facts, depth + 1, budget)) for p, q in zip(x.args[1:], y.args[1:]))
            elif x.op == 'inv':
                ok = prove_eq(x.args[0], y.args[0], facts, depth + 1, budget)
            else:
                ok = prove_fold(x, y, facts, depth, budget)
            if ok: mp[y] = x
    if not mp: return False
    d2 = const(0, d.sort)
    for m, c in pd(d).items():
        t = const(c, d.sort)
        for x in m: t = mul(t, mp.get(x, x))
        d2 = add(d2, t)
    return prove_eq(d2, const(0, d.sort), facts, depth + 1, budget)

def prove_fold(x, y, facts, depth, budget):
    k1, i1, lo1, hi1, v1, b1 = openfold(x)
    k2, i2, lo2, hi2, v2, b2 = openfold(y)
    if k1 != k2: return False
    if not prove_eq(i1, i2, facts, depth + 1, budget): return False
    sh = sub(lo2, lo1)
    if not prove(facts, eq(sub(hi1, lo1), sub(hi2, lo2))): return False
    b2 = subst(b2, {v2: add(v1, sh)})
    return prove_eq(b1, b2, facts + [le(lo1, v1), lt(v1, hi1)], depth + 1, budget)
