"""The vector exponential (C05): every lane is within a stated relative error of exp, over the reals.

The function is executed symbolically on eight symbolic lanes.  The result of a lane is a polynomial in
the lane's argument on each piece between the points where a comparison or a rounding changes; on every
piece the polynomial is compared with the exponential series, in exact rational arithmetic."""
from harness import *
from decimal import Decimal, getcontext
getcontext().prec = 60
SRC = ['src/activation.c']
ERR = Fraction(12, 10 ** 8)
LIM = Fraction(87)               # outside [-87, 87] the result only has to lie beyond (or at) exp of the limit
HUGE = Fraction(2) ** 128

class Split(Exception):
    def __init__(self, pts): self.pts = pts
class No(Exception): pass

def pval(p, x): return sum(c * x ** k for k, c in p.items())
def padd(p, q, f=1):
    r = dict(p)
    for k, c in q.items():
        r[k] = r.get(k, 0) + f * c
        if r[k] == 0: del r[k]
    return r
def pmul(p, q):
    r = {}
    for a, c in p.items():
        for b, d in q.items(): r[a + b] = r.get(a + b, 0) + c * d
    return {k: c for k, c in r.items() if c}
def const_of(p):
    if any(k for k in p): raise No('not constant')
    return p.get(0, Fraction(0))
def lin(p):
    if any(k > 1 for k in p): raise No('a decision depends on a polynomial of higher degree')
    return p.get(0, Fraction(0)), p.get(1, Fraction(0))

class Ev:
    """value of a term as a polynomial in x on the piece [a, b]"""
    def __init__(self, x, a, b): self.x, self.a, self.b, self.memo = x, a, b, {}
    def ends(self, p):
        c, k = lin(p); u, v = c + k * self.a, c + k * self.b
        return min(u, v), max(u, v), c, k
    def num(self, t):
        r = self.memo.get(t)
        if r is None: r = self.memo[t] = self._num(t)
        return r
    def _num(self, t):
        if t is self.x: return {1: Fraction(1)} if self.a < self.b else {0: self.a} if self.a else {}
        if t.op == 'const': return {0: Fraction(t.args[0])} if t.args[0] else {}
        if t.op == 'poly':
            r = {}
            for m, c in t.args:
                q = {0: Fraction(c)}
                for y in m: q = pmul(q, self.num(y))
                r = padd(r, q)
            return r
        if t.op == 'toR': return self.num(t.args[0])
        if t.op == 'ite': return self.num(t.args[1] if self.cond(t.args[0]) else t.args[2])
        if t.op == 'mod':
            u, v = const_of(self.num(t.args[0])), const_of(self.num(t.args[1])); return {0: Fraction(int(u) % int(v))} if int(u) % int(v) else {}
        if t.op == 'app':
            f, a = t.args[0], t.args[1:]
            if f in ('floor', 'round', 'trunc_'):
                p = self.num(a[0])
                if not any(p.keys()) and p.get(0, Fraction(0)).denominator == 1: return p
                lo, hi, c, k = self.ends(p)
                if f == 'trunc_' and lo < 0 < hi: raise Split([-c / k])
                off = Fraction(1, 2) if f == 'round' else Fraction(1) if f == 'trunc_' and hi <= 0 else Fraction(0)
                n, m = (lo + off).__floor__(), (hi + off).__ceil__() - 1
                if m - n > 4000: raise No('the exponent is not bounded')
                if m > n: raise Split([(i - off - c) / k for i in range(n + 1, m + 1)])
                return {0: Fraction(n)} if n else {}
            if f == 'pow2i':
                e = const_of(self.num(a[0]))
                if e.denominator != 1 or not -127 <= e <= 127: raise No('exponent %s outside the range of a float' % e)
                return {} if e == -127 else {0: Fraction(2) ** int(e)}
        raise No('unexpected term %s' % pp(t)[:80])
    def cond(self, t):
        if t.op == 'not': return not self.cond(t.args[0])
        if t.op == 'and': return all(self.cond(y) for y in t.args)
        if t.op == 'or': return any(self.cond(y) for y in t.args)
        if t.op == 'const': return bool(t.args[0])
        if t.op in ('le0', 'lt0', 'eq0'):
            p = self.num(t.args[0]); lo, hi, c, k = self.ends(p)
            if lo == hi: return lo <= 0 if t.op == 'le0' else lo < 0 if t.op == 'lt0' else lo == 0
            if lo < 0 < hi: raise Split([-c / k])
            # a piece is decided by its interior; its end points are pieces of their own
            return False if t.op == 'eq0' else hi <= 0
        raise No('unexpected condition %s' % pp(t)[:80])

def pieces(t, x):
    todo = [(-HUGE, -LIM), (-LIM, LIM), (LIM, HUGE)]; out = []
    while todo:
        a, b = todo.pop()
        if len(out) > 20000: raise No('too many pieces')
        try: out.append((a, b, Ev(x, a, b).num(t)))
        except Split as s:
            ps = [a] + sorted(p for p in set(s.pts) if a < p < b) + [b]
            if len(ps) == 2: raise No('no progress')
            todo += list(zip(ps, ps[1:]))
    out += [(a, a, Ev(x, a, a).num(t)) for a in {a for a, _, _ in out} | {b for _, b, _ in out}]
    return sorted(out, key=lambda z: z[:2])

def EXPQ(m):
    """exp of a rational, relative error below 1e-40"""
    return Fraction((Decimal(m.numerator) / Decimal(m.denominator)).exp())
def shifted(p, m):
    r = {}
    for k, c in p.items():
        q = {0: c}
        for _ in range(k): q = pmul(q, {0: m, 1: Fraction(1)} if m else {1: Fraction(1)})
        r = padd(r, q)
    return r
def error(a, b, p):
    """upper bound of |p - exp| / exp on [a, b]"""
    m, H = (a + b) / 2, (b - a) / 2
    if H > 1: return None
    q = shifted(p, m); E = EXPQ(m); N = 16
    s = Fraction(0); f = Fraction(1)
    for k in range(max([N] + list(q)) + 1):
        if k: f /= k
        want = f if k <= N else Fraction(0)
        s += abs(q.get(k, Fraction(0)) / E - want) * H ** k
    tail = H ** (N + 1) * f * 3
    return (s + tail + Fraction(1, 10 ** 30)) * EXPQ(H)

@contract('exp256_ps', {'C05': None}, ['avx2', 'avx512'])
def exp256(cfg):
    c = Ctx(cfg, SRC)
    xs = tuple(c.real('x%d' % i) for i in range(8))
    r = c.call('exp256_ps', xs)
    if not isinstance(r, tuple) or len(r) != 8: c.post(FALSE, 'eight lanes'); return c
    for i in range(1, 8):
        c.post(TRUE if subst(r[0], {xs[0]: xs[i]}) is r[i] else FALSE, 'lane %d computes the same function of its own argument as lane 0' % i)
    try: ps = pieces(r[0], xs[0])
    except No as e: c.post(FALSE, 'exp of every argument: %s' % e); return c
    lo, hi = EXPQ(-LIM) * (1 + ERR), EXPQ(LIM) * (1 - ERR)
    for a, b, p in ps:
        if b <= -LIM or a >= LIM:
            what = 'between 0 and exp(-87)' if b <= -LIM else 'at least exp(87) and finite'
            l, h = (Fraction(0), lo) if b <= -LIM else (hi, HUGE)
            if not any(p.keys()): ok = l <= p.get(0, Fraction(0)) < h or p.get(0, Fraction(0)) == l
            elif b - a < 2:        # exp and the error bound
                e = error(a, b, p); ok = e is not None and e <= ERR and (EXPQ(b) * (1 + ERR) <= h) and EXPQ(a) * (1 - ERR) >= l
            else: ok = False
            c.post(TRUE if ok else FALSE, 'argument in [%.9g, %.9g]: %s' % (a, b, what))
        else:
            e = error(a, b, p)
            c.post(TRUE if e is not None and e <= ERR else FALSE, 'argument in [%.9g, %.9g]: relative error at most 1.2e-7' % (a, b))
    if os.environ.get('EXPDBG'): print(len(ps), max(float(error(a, b, p) or 9) for a, b, p in ps if -LIM <= a and b <= LIM))
    c.satisfiable(); return c
