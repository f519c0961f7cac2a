"""Models of LLVM intrinsics and of libc functions (assumed contracts; listed in the evidence)."""
import struct, math
from fractions import Fraction
from terms import *
import terms as tm
import solve
from solve import prove, decide, simp, infeasible

BUILTIN = {}
PREFIX = []
def b(*names):
    def d(f):
        for n in names: BUILTIN[n] = f
        return f
    return d
def pre(*names):
    def d(f):
        for n in names: PREFIX.append((n, f))
        return f
    return d

def install(ex):
    ex.builtins = dict(BUILTIN)
    ex.builtin_prefix = list(PREFIX)

class BV(tuple):
    """vector bit-cast to another lane layout, original lanes remembered"""
    pass

def bits2f(x):
    if x.op == 'const':
        n = int(x.args[0]) & 0xffffffff
        f = struct.unpack('<f', struct.pack('<I', n))[0]
        if f != f or f in (float('inf'), float('-inf')): return app('bits2f', R, x)
        return RC(Fraction(f))
    if x.op == 'app' and x.args[0] == 'f2bits': return x.args[1]
    if x.op == 'ite':
        a, bb = x.args[1], x.args[2]
        if a.op == 'const' and bb.op == 'const' and {int(a.args[0]), int(bb.args[0])} == {-1, 0}:
            c = x.args[0] if int(a.args[0]) == -1 else not_(x.args[0])
            return app('maskf', R, ite(c, IC(1), IC(0)))
        return ite(x.args[0], bits2f(a), bits2f(bb))
    d = pd(x)
    if all(c % (1 << 23) == 0 for c in d.values()):
        return app('pow2i', R, frompd({m: c / (1 << 23) for m, c in d.items()}, I) - 127)
    return app('bits2f', R, x)

def f2bits(x):
    if x.op == 'app' and x.args[0] == 'bits2f': return x.args[1]
    if x.op == 'app' and x.args[0] == 'maskf': return ite(eq(x.args[1], IC(1)), IC(-1), IC(0))
    if x.op == 'const':
        try: return IC(struct.unpack('<i', struct.pack('<f', float(x.args[0])))[0])
        except Exception: pass
    return app('f2bits', I, x)

def bitop(ex, st, op, a, bb, w):
    if a.op == 'const' and bb.op == 'const':
        x, y = int(a.args[0]), int(bb.args[0])
        r = {'and': x & y, 'or': x | y, 'xor': x ^ y}[op]
        return IC(r)
    if a.op == 'const': a, bb = bb, a
    for p, q in ((a, bb), (bb, a)):
        if p.op == 'ite' and p.args[1].op == 'const' and p.args[2].op == 'const':
            v = (int(p.args[1].args[0]), int(p.args[2].args[0]))
            if set(v) == {0, -1}:
                c = p.args[0] if v[0] == -1 else not_(p.args[0])
                if op == 'and': return ite(c, q, IC(0))
                if op == 'or': return ite(c, IC(-1), q)
                if op == 'xor': return ite(c, -1 - q, q)
    if bb.op == 'const':
        n = int(bb.args[0])
        if op == 'and':
            if n == 0: return IC(0)
            if n == -1: return a
            if n > 0 and (n & (n + 1)) == 0 and not (a.op == 'app' and a.args[0] == 'f2bits'):
                return intmod(a, IC(n + 1))
            if n < 0 and ((-n) & (-n - 1)) == 0:      # ~(2^k-1)
                return sub(a, intmod(a, IC(-n)))
            if n == 0x7fffffff and a.op == 'app' and a.args[0] == 'f2bits':
                return app('f2bits', I, rabs(a.args[1]))
        if op == 'or':
            if n == 0: return a
            if n == -1: return IC(-1)
        if op == 'xor':
            if n == 0: return a
            if n == -1: return sub(IC(-1), a)
            if n == -(1 << 31) and a.op == 'app' and a.args[0] == 'f2bits':
                return app('f2bits', I, neg(a.args[1]))
    if op in ('or', 'xor'):
        # x | 2^k*y with 0 <= x < 2^k is a sum
        for x, y in ((a, bb), (bb, a)):
            g = 0
            for m, cf in pd(y).items():
                if Fraction(cf).denominator != 1: g = 1; break
                g = math.gcd(g, int(cf))
            k = g & -g
            if k > 1:
                import execu; lo, hi = execu.interval(x)
                if lo is not None and hi is not None and lo >= 0 and hi < k: return add(x, y)
    if a.op == 'ite' and _smallconst(a): return ite(a.args[0], bitop(ex, st, op, a.args[1], bb, w), bitop(ex, st, op, a.args[2], bb, w))
    if bb.op == 'ite' and _smallconst(bb): return ite(bb.args[0], bitop(ex, st, op, a, bb.args[1], w), bitop(ex, st, op, a, bb.args[2], w))
    if op == 'and' and _isbool(a) and _isbool(bb): return ite(and_(eq(a, IC(1)), eq(bb, IC(1))), IC(1), IC(0))
    if op == 'or' and _isbool(a) and _isbool(bb): return ite(or_(eq(a, IC(1)), eq(bb, IC(1))), IC(1), IC(0))
    return app('bit_' + op, I, a, bb)

def _smallconst(x): return x.args[1].op == 'const' and x.args[2].op == 'const'
def _isbool(x): return x.op == 'ite' and all(y.op == 'const' and y.args[0] in (0, 1) for y in x.args[1:])

def vbitcast(ex, st, x, ft, tt):
    if isinstance(x, BV):
        if len(x.orig[1]) and x.orig[0] == tt: return x.orig[1]
        o, lanes = x.orig
        if tt[0] == 'vec' and o[0] == 'vec' and tt[1] == o[1]:
            return tuple(ex.cast(st, 'bitcast', y, o[2], tt[2], 0) for y in lanes)
    if ft[0] == 'vec' and ft[2] == ('int', 1) and tt[0] == 'int':
        r = IC(0)
        for i, c in enumerate(x): r = add(r, ite(c, IC(1 << i), IC(0)))
        return ex.resigned(st, r, tt[1])
    if tt[0] == 'vec' and tt[2] == ('int', 1) and ft[0] == 'int':
        if x.op == 'const':
            n = int(x.args[0]); return tuple(TRUE if n >> i & 1 else FALSE for i in range(tt[1]))
        return tuple(eq(intmod(intdiv(x, IC(1 << i)), IC(2)), IC(1)) for i in range(tt[1]))
    if isinstance(x, tuple) and tt[0] == 'vec':
        if all(y.op == 'const' and y.args[0] == 0 for y in x): return ex.zero(tt)
        r = BV([None] * tt[1]); r.orig = (ft, tuple(x)); return r
    if isinstance(x, tuple):
        r = BV([None]); r.orig = (ft, tuple(x)); return r
    from execu import Unsupported
    raise Unsupported('vector bitcast %s -> %s' % (ft, tt))

def lanes(f, *vs):
    if isinstance(vs[0], tuple): return tuple(f(*x) for x in zip(*vs))
    return f(*vs)

@pre('llvm.fma.', 'llvm.fmuladd.')
def _fma(ex, it, st, n, a): return lanes(lambda x, y, z: add(mul(x, y), z), *a[:3])
@pre('llvm.fabs.')
def _fabs(ex, it, st, n, a): return lanes(rabs, a[0])
@pre('llvm.maxnum.')
def _max(ex, it, st, n, a): return lanes(rmax, a[0], a[1])
@pre('llvm.minnum.')
def _min(ex, it, st, n, a): return lanes(rmin, a[0], a[1])
@pre('llvm.sqrt.')
def _sqrt(ex, it, st, n, a): return lanes(lambda x: mkapp('sqrt', R, x), a[0])
@pre('llvm.exp.')
def _exp(ex, it, st, n, a): return lanes(lambda x: mkapp('exp', R, x), a[0])
@pre('llvm.log.')
def _log(ex, it, st, n, a): return lanes(lambda x: mkapp('log', R, x), a[0])
@pre('llvm.pow.')
def _powi(ex, it, st, n, a): return lanes(lambda x, y: mkapp('pow', R, x, y), a[0], a[1])
@pre('llvm.floor.')
def _floor(ex, it, st, n, a): return lanes(lambda x: toR(mkapp('floor', I, x)), a[0])
@pre('llvm.round.', 'llvm.rint.', 'llvm.nearbyint.', 'llvm.roundeven.')
def _round(ex, it, st, n, a): return lanes(lambda x: toR(mkapp('round', I, x)), a[0])
@pre('llvm.copysign.')
def _cs(ex, it, st, n, a): return lanes(lambda x, y: ite(lt(y, RC(0)), neg(rabs(x)), rabs(x)), a[0], a[1])
@pre('llvm.vector.reduce.fadd')
def _rfadd(ex, it, st, n, a):
    r = a[0]
    for x in a[1]: r = add(r, x)
    return r
@pre('llvm.vector.reduce.fmax')
def _rfmax(ex, it, st, n, a):
    r = a[0][0]
    for x in a[0][1:]: r = rmax(r, x)
    return r
@pre('llvm.x86.avx.max.ps.256', 'llvm.x86.sse.max.ps', 'llvm.x86.avx512.max.ps.512')
def _xmax(ex, it, st, n, a): return lanes(rmax, a[0], a[1])
@pre('llvm.x86.avx.min.ps.256', 'llvm.x86.sse.min.ps', 'llvm.x86.avx512.min.ps.512')
def _xmin(ex, it, st, n, a): return lanes(rmin, a[0], a[1])
@pre('llvm.x86.avx.hadd.ps.256')
def _hadd8(ex, it, st, n, a):
    x, y = a[0], a[1]
    return tuple(add(*p) for p in ((x[0], x[1]), (x[2], x[3]), (y[0], y[1]), (y[2], y[3]), (x[4], x[5]), (x[6], x[7]), (y[4], y[5]), (y[6], y[7])))
@pre('llvm.x86.sse3.hadd.ps')
def _hadd4(ex, it, st, n, a):
    x, y = a[0], a[1]
    return tuple(add(*p) for p in ((x[0], x[1]), (x[2], x[3]), (y[0], y[1]), (y[2], y[3])))
@pre('llvm.x86.avx.round.ps.256', 'llvm.x86.sse41.round.ps')
def _xround(ex, it, st, n, a):
    m = int(cval(a[1])) & 7
    if m == 1: return lanes(lambda x: toR(mkapp('floor', I, x)), a[0])
    if m == 0: return lanes(lambda x: toR(mkapp('round', I, x)), a[0])
    return lanes(lambda x: app('roundmode%d' % m, R, x), a[0])
@pre('llvm.x86.avx.cvtt.ps2dq.256', 'llvm.x86.sse2.cvttps2dq')
def _cvtt(ex, it, st, n, a): return lanes(lambda x: mkapp('trunc_', I, x), a[0])
@pre('llvm.x86.avx.cvt.ps2dq.256', 'llvm.x86.sse2.cvtps2dq')
def _cvt(ex, it, st, n, a): return lanes(lambda x: mkapp('round', I, x), a[0])
@pre('llvm.x86.avx2.pslli.d', 'llvm.x86.sse2.pslli.d')
def _pslli(ex, it, st, n, a):
    k = 1 << int(cval(a[1])); return lanes(lambda x: tm.scale(x, k), a[0])
@pre('llvm.x86.avx.blendv.ps.256', 'llvm.x86.sse41.blendvps')
def _blendv(ex, it, st, n, a):
    def f(x, y, m):
        if m.op == 'app' and m.args[0] == 'maskf': return ite(eq(m.args[1], IC(1)), y, x)
        return ite(lt(m, RC(0)), y, x)
    return lanes(f, a[0], a[1], a[2])
@pre('llvm.x86.avx.sqrt.ps.256', 'llvm.x86.avx512.sqrt.ps.512')
def _xsqrt(ex, it, st, n, a): return lanes(lambda x: mkapp('sqrt', R, x), a[0])
@pre('llvm.x86.avx.rsqrt', 'llvm.x86.sse.rsqrt')
def _rsqrt(ex, it, st, n, a): return lanes(lambda x: app('approx_rsqrt', R, x), a[0])
@pre('llvm.x86.avx.rcp', 'llvm.x86.sse.rcp')
def _rcp(ex, it, st, n, a): return lanes(lambda x: app('approx_rcp', R, x), a[0])
@pre('llvm.smax.')
def _smax(ex, it, st, n, a): return lanes(lambda x, y: ite(le(x, y), y, x), a[0], a[1])
@pre('llvm.smin.')
def _smin(ex, it, st, n, a): return lanes(lambda x, y: ite(le(x, y), x, y), a[0], a[1])
@pre('llvm.umax.', 'llvm.umin.')
def _umm(ex, it, st, n, a):
    from execu import unsigned
    w = int(n.split('.i')[-1])
    f = lambda x, y: ite(le(unsigned(x, w, st), unsigned(y, w, st)), y, x) if 'umax' in n else ite(le(unsigned(x, w, st), unsigned(y, w, st)), x, y)
    return lanes(f, a[0], a[1])
@pre('llvm.abs.')
def _iabs(ex, it, st, n, a): return lanes(lambda x: ite(lt(x, IC(0)), neg(x), x), a[0])
@pre('llvm.stacksave', 'llvm.stackrestore', 'llvm.lifetime', 'llvm.dbg', 'llvm.assume', 'llvm.va_start', 'llvm.va_end', 'llvm.va_copy', 'llvm.experimental.noalias', 'llvm.prefetch')
def _nop(ex, it, st, n, a):
    if n.startswith('llvm.stacksave'):
        from execu import NULL
        return NULL
    return None
@pre('llvm.objectsize')
def _objsize(ex, it, st, n, a): return IC(-1)
@pre('llvm.expect')
def _expect(ex, it, st, n, a): return a[0]
@pre('llvm.masked.load')
def _mload(ex, it, st, n, a):
    p, al, m, passthru = a
    out = []
    from execu import Ptr
    for l, c in enumerate(m):
        if c is FALSE or decide(st.facts(), c) is False: out.append(passthru[l]); continue
        s2 = st.fork(); s2.assume(c)
        v = ex.load(s2, ('float',), Ptr(p.base, add(p.off, IC(4 * l))), 4, it.line)
        out.append(ite(c, v, passthru[l]))
    return tuple(out)
@pre('llvm.masked.store')
def _mstore(ex, it, st, n, a):
    v, p, al, m = a
    from execu import Ptr
    for l, c in enumerate(m):
        if c is FALSE: continue
        s2 = st.fork(); s2.assume(c)
        ex.store(s2, ('float',), v[l], Ptr(p.base, add(p.off, IC(4 * l))), 4, it.line)
        st.mem[p.base] = ex.mergecontent(c, s2.mem[p.base], st.mem[p.base], p.base)
    return None

# ------------------------------------------------ memory block operations
def zero_range(ex, st, p, n, line):
    from execu import Arr, Unsupported, window
    r = p.base
    c = st.mem.get(r)
    if isinstance(c, Arr):
        i = ex.elemidx(p.off, r.es); k = ex.elemidx(n, r.es)
        if i is None or k is None: raise Unsupported('memset granularity')
        st.mem[r] = Arr(c.v, ite(window(c.v, i, add(i, k)), const(0, r.sort), c.body))
        return
    if p.off.op != 'const' or n.op != 'const': raise Unsupported('memset of cells with symbolic extent')
    o, k = int(p.off.args[0]), int(n.args[0])
    c = dict(c or {})
    for x in [x for x, (s, _) in c.items() if x < o + k and o < x + s]: del c[x]
    x = o
    while x + 4 <= o + k: c[x] = (4, IC(0)); x += 4
    while x < o + k: c[x] = (1, IC(0)); x += 1
    st.mem[r] = c

@pre('llvm.memset.')
def _memset(ex, it, st, n, a):
    from execu import Ptr, Arr, Unsupported, window, alts
    p, v, k = a[0], a[1], a[2]
    if not isinstance(p, Ptr):
        import heap
        heap.distribute(ex, st, p, lambda s, q: _memset(ex, it, s, n, [q] + list(a[1:])))
        return None
    if k.op == 'const' and k.args[0] == 0: return None
    h = getattr(p.base, 'handler', None)
    if hasattr(h, 'memset'): h.memset(ex, st, p, v, k, it.line); return None
    ex.oblige(st, it.line, 'bounds', ge(k, IC(0)), 'memset length')
    if not ex.bounds(st, p, k, it.line, 'memset'): return None
    ex.materialise(st, p.base, None) if hasattr(ex, 'materialise') else None
    if not p.base.writable: ex.oblige(st, it.line, 'write', FALSE, 'memset of read-only %s' % p.base.name)
    if v.op == 'const' and v.args[0] == 0:
        zero_range(ex, st, p, k, it.line); return None
    c = st.mem.get(p.base)
    if isinstance(c, Arr) and p.base.es == 1:
        st.mem[p.base] = Arr(c.v, ite(window(c.v, p.off, add(p.off, k)), v, c.body)); return None
    if isinstance(c, Arr):
        i = ex.elemidx(p.off, p.base.es); kk = ex.elemidx(k, p.base.es)
        if i is not None and kk is not None:
            x = fresh('memset', R) if p.base.sort == R else fresh('memset', I)
            st.mem[p.base] = Arr(c.v, ite(window(c.v, i, add(i, kk)), app('memsetval', p.base.sort, v), c.body)); return None
    raise Unsupported('memset with non-zero byte')

@pre('llvm.memcpy.', 'llvm.memmove.')
def _memcpy(ex, it, st, n, a):
    from execu import Ptr, Arr, Unsupported, window
    d, s, k = a[0], a[1], a[2]
    if not isinstance(d, Ptr) or not isinstance(s, Ptr):
        import heap
        if not isinstance(d, Ptr): heap.distribute(ex, st, d, lambda s_, q: _memcpy(ex, it, s_, n, [q, s, k]))
        else: heap.distribute(ex, st, s, lambda s_, q: _memcpy(ex, it, s_, n, [d, q, k]))
        return None
    if k.op == 'const' and k.args[0] == 0: return None
    h = getattr(d.base, 'handler', None)
    if hasattr(h, 'memcpy'): h.memcpy(ex, st, d, s, k, it.line); return None
    h = getattr(s.base, 'handler', None)
    if hasattr(h, 'copyfrom'): h.copyfrom(ex, st, d, s, k, it.line); return None
    ex.oblige(st, it.line, 'bounds', ge(k, IC(0)), 'memcpy length')
    if decide(st.facts(), eq(k, IC(0))) is True: return None
    ok = ex.bounds(st, d, k, it.line, 'memcpy to') & ex.bounds(st, s, k, it.line, 'memcpy from')
    if not ok: return None
    if not d.base.writable: ex.oblige(st, it.line, 'write', FALSE, 'memcpy to read-only %s' % d.base.name)
    if d.base is s.base and 'memcpy' in n:
        ex.oblige(st, it.line, 'bounds', or_(le(add(s.off, k), d.off), le(add(d.off, k), s.off), eq(s.off, d.off)), 'memcpy overlap')
    cd, cs = st.mem.get(d.base), st.mem.get(s.base)
    if isinstance(cs, Arr) and isinstance(cd, Arr):
        if getattr(d.base, 'pending', False) and not getattr(s.base, 'pending', False):      # first access to the block
            import heap
            heap.retag(ex, st, d.base, s.base.es, s.base.sort == I); cd = st.mem[d.base]
        if d.base.es != s.base.es: raise Unsupported('memcpy between different element sizes')
        es = d.base.es
        i, j, m = ex.elemidx(d.off, es), ex.elemidx(s.off, es), ex.elemidx(k, es)
        if i is None or j is None or m is None: raise Unsupported('memcpy granularity')
        v = cd.v
        st.mem[d.base] = Arr(v, ite(window(v, i, add(i, m)), cs.at(add(sub(v, i), j)), cd.body))
        return None
    if isinstance(cd, dict) or cd is None:
        if isinstance(cs, dict) and d.off.op == s.off.op == k.op == 'const':
            o, q, m = int(d.off.args[0]), int(s.off.args[0]), int(k.args[0])
            # force lazily existing source cells: copy known ones
            cd = dict(cd or {})
            for x in [x for x, (z, _) in cd.items() if x < o + m and o < x + z]: del cd[x]
            for x, (z, v) in cs.items():
                if q <= x and x + z <= q + m: cd[o + x - q] = (z, v)
            if getattr(s.base, 'bytes', None) and not cs: pass
            st.mem[d.base] = cd
            return None
    if isinstance(cd, dict) and isinstance(cs, Arr) and d.off.op == s.off.op == k.op == 'const' and k.args[0] <= 256 and k.args[0] % s.base.es == 0 and s.off.args[0] % s.base.es == 0:
        es = s.base.es; by = [solve.simp(cs.at(IC(int(s.off.args[0]) // es + j)), st.facts()) for j in range(int(k.args[0]) // es)]
        zero_range(ex, st, d, k, it.line)
        if any(x is not IC(0) for x in by):
            cd = {x: e for x, e in st.mem[d.base].items() if not (int(d.off.args[0]) <= x < int(d.off.args[0]) + int(k.args[0]))}
            for j, x in enumerate(by): cd[int(d.off.args[0]) + j * es] = (es, x)
            st.mem[d.base] = cd
        return None
    if isinstance(cd, Arr) and d.base.es == 1 and k.op == 'const' and k.args[0] <= 64 and s.off.op == 'const':
        import bytestr
        bytestr.fit(ex, st, d.base); by = [ex.rawload(st, ('int', 8), Ptr(s.base, add(s.off, IC(j))), it.line) for j in range(int(k.args[0]))]
        cd = st.mem[d.base]; b = cd.body
        for j, x in enumerate(by): b = ite(eq(cd.v, add(d.off, IC(j))), x, b)
        st.mem[d.base] = Arr(cd.v, b); return None
    raise Unsupported('memcpy between %s and %s (%s %s %s, %s %s)' % (d.base, s.base, d.off, s.off, k, type(cd), type(cs)))

@b('memcpy', 'memmove')
def _memcpyf(ex, it, st, n, a): _memcpy(ex, it, st, n, a); return a[0]
@b('memset')
def _memsetf(ex, it, st, n, a): _memset(ex, it, st, n, a); return a[0]

# ------------------------------------------------ libm
def _m(name, sort=R):
    return lambda ex, it, st, n, a: mkapp(name, sort, *a)
for c, m in (('exp', 'exp'), ('log', 'log'), ('tanh', 'tanh'), ('sqrt', 'sqrt'), ('cosh', 'cosh'), ('sinh', 'sinh'), ('sin', 'sin'), ('cos', 'cos'),
             ('log1p', 'log1p'), ('expm1', 'expm1'), ('pow', 'pow'), ('exp2', 'exp2'), ('log2', 'log2'), ('log10', 'log10')):
    BUILTIN[c] = BUILTIN[c + 'f'] = _m(m)
BUILTIN['fabs'] = BUILTIN['fabsf'] = lambda ex, it, st, n, a: rabs(a[0])
BUILTIN['fmax'] = BUILTIN['fmaxf'] = lambda ex, it, st, n, a: rmax(a[0], a[1])
BUILTIN['fmin'] = BUILTIN['fminf'] = lambda ex, it, st, n, a: rmin(a[0], a[1])
BUILTIN['round'] = BUILTIN['roundf'] = lambda ex, it, st, n, a: toR(mkapp('round', I, a[0]))
BUILTIN['floor'] = BUILTIN['floorf'] = lambda ex, it, st, n, a: toR(mkapp('floor', I, a[0]))
def _r_log1p(s, x): return mkapp('log', R, add(x, RC(1)))
def _r_expm1(s, x): return sub(mkapp('exp', R, x), RC(1))
def _r_exp(s, x):
    if x.op == 'const' and x.args[0] == 0: return RC(1)
    return None
def _r_log(s, x):
    if x.op == 'const' and x.args[0] == 1: return RC(0)
    if x.op == 'app' and x.args[0] == 'exp': return x.args[1]
    return None
def _r_trunc(s, x):
    if x.op == 'const': return IC(int(x.args[0]))
    if x.op == 'toR': return x.args[0]
    if x.op == 'poly' and all(all(y.op == 'toR' for y in m) and c.denominator == 1 for m, c in x.args):
        return frompd({tuple(sorted([y.args[0] for y in m], key=lambda t: t.id)): c for m, c in x.args}, I)
    return None
def _r_sqrt(s, x):
    if x.op == 'const' and x.args[0] in (0, 1): return x
    return None
def _e(x): return mkapp('exp', R, x)
def _r_tanh(s, x):
    if x.op == 'const' and x.args[0] == 0: return x
    return sub(mul(RC(2), tm.inv(add(RC(1), _e(tm.scale(x, -2))))), RC(1))
def _r_cosh(s, x): return tm.scale(add(_e(x), _e(neg(x))), Fraction(1, 2))
def _r_sinh(s, x): return tm.scale(sub(_e(x), _e(neg(x))), Fraction(1, 2))
APPRULES.update(log1p=_r_log1p, expm1=_r_expm1, exp=_r_exp, log=_r_log, trunc_=_r_trunc, sqrt=_r_sqrt, tanh=_r_tanh, cosh=_r_cosh, sinh=_r_sinh)
solve.APPFACTS['exp'] = lambda t: [gt(t, RC(0))]
solve.APPFACTS['sqrt'] = lambda t: [implies(ge(t.args[1], RC(0)), and_(ge(t, RC(0)), eq(mul(t, t), t.args[1]))) , implies(gt(t.args[1], RC(0)), gt(t, RC(0)))]
def _tanhfacts(t):
    return [lt(t, RC(1)), gt(t, RC(-1))]
solve.APPFACTS['tanh'] = _tanhfacts
solve.APPFACTS['floor'] = lambda t: [le(toR(t), t.args[1]), lt(t.args[1], toR(t) + 1)]
solve.NONNEG |= {'exp'}

# ------------------------------------------------ process / diagnostics
@b('__assert_fail')
def _assert(ex, it, st, n, a):
    ex.oblige(st, it.line, 'assert', FALSE, 'assertion can fail')
    return 'noreturn'
@b('abort', 'exit', '_exit')
def _abort(ex, it, st, n, a):
    ex.oblige(st, it.line, 'assert', FALSE, 'process is aborted')
    return 'noreturn'
def _log(ex, it, st, n, a): return fresh('ioret', I)
for c in ('printf', 'fprintf', 'puts', 'putchar', 'fputc', 'fputs', 'perror', 'fflush', 'vprintf', 'vfprintf'):
    BUILTIN[c] = _log
BUILTIN['fwrite_stderr'] = _log
for c in ('omp_get_num_threads', 'omp_get_thread_num', 'omp_get_max_threads'): BUILTIN[c] = _log
