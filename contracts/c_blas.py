"""The BLAS build (-DUSE_CBLAS): kernels, batch prediction and evaluation against assumed contracts
of the cblas functions (row-major, unit strides; the leading dimension may be larger than a row)."""
from harness import *
from nets import *
from nets import _ptrs, _rd, _wr, _sep, _content, _update
import nets, bytestr, cstr
BL = ['cblas']
ROW, NOTRANS, TRANS = IC(101), IC(111), IC(112)

# ------------------------------------------------------------------ assumed contracts of cblas
def _req(ex, it, st, W, *cs):
    for c, t in cs: ex.oblige(st, it.line, 'call', c, W + ': ' + t)
def sgemv(ex, f, it, st, a):
    order, trans, m, n, alpha, A, lda, x, incx, beta, y, incy = a; W = 'cblas_sgemv'; _ptrs(ex, it, st, A, x, y)
    if trans not in (NOTRANS, TRANS): raise Unsupported('transposition flag of cblas_sgemv')
    t = trans is TRANS; nx, ny = (m, n) if t else (n, m)
    _req(ex, it, st, W, (eq(order, ROW), 'row major'), (ge(m, IC(1)), 'rows'), (ge(n, IC(1)), 'columns'), (eq(lda, n), 'leading dimension is the row length'),
         (eq(incx, IC(1)), 'unit stride'), (eq(incy, IC(1)), 'unit stride'))
    _rd(ex, it, st, A, mul(m, n), W + ' matrix'); _rd(ex, it, st, x, nx, W + ' x'); _wr(ex, it, st, y, ny, W + ' y')
    _sep(ex, it, st, y, ny, A, mul(m, n), W); _sep(ex, it, st, y, ny, x, nx, W)
    cA, cx, cy = _content(ex, st, A), _content(ex, st, x), _content(ex, st, y); q = fresh('q', I)
    prod = (lambda r: msum(IC(0), m, q, mul(cx(q), cA(add(mul(q, n), r))))) if t else (lambda r: msum(IC(0), n, q, mul(cx(q), cA(add(mul(r, n), q)))))
    old = (lambda r: RC(0)) if beta is RC(0) else (lambda r: mul(beta, cy(r)))          # beta = 0: y is not read
    _update(ex, st, y, ny, lambda r: add(old(r), mul(alpha, prod(r))))
    return st
def sger(ex, f, it, st, a):
    order, m, n, alpha, x, incx, y, incy, A, lda = a; W = 'cblas_sger'; _ptrs(ex, it, st, x, y, A)
    _req(ex, it, st, W, (eq(order, ROW), 'row major'), (ge(m, IC(1)), 'rows'), (ge(n, IC(1)), 'columns'), (eq(lda, n), 'leading dimension is the row length'),
         (eq(incx, IC(1)), 'unit stride'), (eq(incy, IC(1)), 'unit stride'))
    _rd(ex, it, st, x, m, W + ' x'); _rd(ex, it, st, y, n, W + ' y'); _wr(ex, it, st, A, mul(m, n), W + ' matrix')
    _sep(ex, it, st, A, mul(m, n), x, m, W); _sep(ex, it, st, A, mul(m, n), y, n, W)
    cA, cx, cy = _content(ex, st, A), _content(ex, st, x), _content(ex, st, y)
    _update(ex, st, A, mul(m, n), lambda r: add(cA(r), mul(alpha, mul(cx(intdiv(r, n)), cy(intmod(r, n))))))
    return st
def axpby(name):
    def k(ex, f, it, st, a):
        if name == 'cblas_saxpy': n, alpha, x, incx, y, incy = a; beta = RC(1)
        else: n, alpha, x, incx, beta, y, incy = a
        _ptrs(ex, it, st, x, y)
        _req(ex, it, st, name, (ge(n, IC(0)), 'length'), (eq(incx, IC(1)), 'unit stride'), (eq(incy, IC(1)), 'unit stride'))
        _rd(ex, it, st, x, n, name + ' x'); _wr(ex, it, st, y, n, name + ' y'); _sep(ex, it, st, y, n, x, n, name)
        cx, cy = _content(ex, st, x), _content(ex, st, y)
        _update(ex, st, y, n, lambda r: add(mul(beta, cy(r)), mul(alpha, cx(r))))
        return st
    return k
def sgemm(ex, f, it, st, a):
    order, ta, tb, m, n, k, alpha, A, lda, Bm, ldb, beta, Cm, ldc = a; W = 'cblas_sgemm'; _ptrs(ex, it, st, A, Bm, Cm)
    _req(ex, it, st, W, (eq(order, ROW), 'row major'), (eq(ta, NOTRANS), 'A is not transposed'), (eq(tb, NOTRANS), 'B is not transposed'), (ge(m, IC(0)), 'rows'), (ge(n, IC(1)), 'columns'),
         (ge(k, IC(1)), 'inner size'), (eq(lda, k), 'leading dimension of A'), (eq(ldb, n), 'leading dimension of B'), (eq(ldc, n), 'leading dimension of C'))
    sa, sb, sc = mul(m, k), mul(k, n), mul(m, n)
    _rd(ex, it, st, A, sa, W + ' A'); _rd(ex, it, st, Bm, sb, W + ' B'); _wr(ex, it, st, Cm, sc, W + ' C')
    _sep(ex, it, st, Cm, sc, A, sa, W + ' A'); _sep(ex, it, st, Cm, sc, Bm, sb, W + ' B')
    cA, cB, cC = _content(ex, st, A), _content(ex, st, Bm), _content(ex, st, Cm); q = fresh('q', I)
    _update(ex, st, Cm, sc, lambda r: add(mul(beta, cC(r)), mul(alpha, msum(IC(0), k, q, mul(cA(add(mul(intdiv(r, n), k), q)), cB(add(mul(q, n), intmod(r, n))))))))
    return st
CBLAS = {'cblas_sgemv': sgemv, 'cblas_sger': sger, 'cblas_saxpy': axpby('cblas_saxpy'), 'cblas_saxpby': axpby('cblas_saxpby'), 'cblas_sgemm': sgemm}

# ------------------------------------------------------------------ kernels
KP = {'C01': None, 'C03': SAFETY}; GP = {'C04': None, 'C03': SAFETY}; OP = {'C12': None, 'C03': SAFETY}
MO = ['src/matrix_operations.c']
def kctx(cfg):
    c = Ctx(cfg, MO); c.ex.contracts = dict(CBLAS); return c
@contract('vector_matrix_multiply@blas', KP, BL, functions=['vector_matrix_multiply'])
def vmm(cfg):
    c = kctx(cfg); n, m = c.int('n', 1), c.int('m', 1); c.assume(le(n * m, IC(INT_MAX)))
    w = c.array('w', n * m, 4, False); b = c.array('b', m, 4, False); x = c.array('x', n, 4, False); y = c.array('y', m, 4)
    c.call('vector_matrix_multiply', n, m, w, b, x, y); q = fresh('q', I)
    c.post_elem(y, m, lambda r: app('b', R, r) + msum(IC(0), n, q, app('x', R, q) * app('w', R, q * m + r)))
    c.satisfiable(); return c
@contract('matrix_vector_multiply@blas', GP, BL, functions=['matrix_vector_multiply'])
def mvm(cfg):
    c = kctx(cfg); n, m = c.int('n', 1), c.int('m', 1); c.assume(le(n * m, IC(INT_MAX)))
    w = c.array('w', n * m, 4, False); x = c.array('x', m, 4, False); y = c.array('y', n, 4)
    c.call('matrix_vector_multiply', n, m, w, x, y); q = fresh('q', I)
    c.post_elem(y, n, lambda r: msum(IC(0), m, q, app('x', R, q) * app('w', R, r * m + q)))
    c.satisfiable(); return c
@contract('vector_vector_outer@blas', GP, BL, functions=['vector_vector_outer'])
def vvo(cfg):
    c = kctx(cfg); n, m = c.int('n', 1), c.int('m', 1); c.assume(le(n * m, IC(INT_MAX)))
    x = c.array('x', n, 4, False); y = c.array('y', m, 4, False); w = c.array('w', n * m, 4, zero=True)
    c.call('vector_vector_outer', n, m, x, y, w)
    i, j = fresh('i', I), fresh('j', I); s = c.st.fork()
    for t in (ge(i, IC(0)), lt(i, n), ge(j, IC(0)), lt(j, m)): s.assume(t)
    c.post_eq(s.mem[w].at(i * m + j), app('x', R, i) * app('y', R, j), 'w[i*m+j] == x[i]*y[j]', s)
    c.satisfiable(); return c
def vec(name, arrays, scalars, spec, order, props):
    @contract(name + '@blas', props, BL, functions=[name])
    def _(cfg):
        c = kctx(cfg); n = c.int('n'); al = 4 if name.endswith('_unaligned') else c.align
        regs = {a: c.array(a, n, al, writable=(a == arrays[0])) for a in arrays}; sc = {s: c.real(s) for s in scalars}
        c.call(name, *[n if o == 'n' else regs[o] if o in regs else sc[o] for o in order])
        A = {a: (lambda a: lambda r: app(a, R, r))(a) for a in arrays}
        c.post_elem(regs[arrays[0]], n, lambda r: spec(A, sc, r))
        c.satisfiable(); return c
vec('vector_accumulate', ['a', 'b'], [], lambda A, s, r: A['a'](r) + A['b'](r), ['n', 'a', 'b'], OP)
vec('vector_accumulate_unaligned', ['a', 'b'], [], lambda A, s, r: A['a'](r) + A['b'](r), ['n', 'a', 'b'], OP)
vec('vector_saxpy', ['a', 'b'], ['alpha'], lambda A, s, r: A['a'](r) + s['alpha'] * A['b'](r), ['n', 'a', 'alpha', 'b'], OP)
vec('vector_saxpby', ['a', 'b'], ['alpha', 'beta'], lambda A, s, r: s['beta'] * A['a'](r) + s['alpha'] * A['b'](r), ['n', 'a', 'alpha', 'b', 'beta'], OP)

# ------------------------------------------------------------------ evaluation
def batch_contract(net, below=None):
    """contract of neuralnet_predict_batch at call sites (proved below): every sample is predicted like alone"""
    def k(ex, f, it, st, a):
        nn, S, x, y = a; W = 'neuralnet_predict_batch'; _ptrs(ex, it, st, x, y)
        net.is_net(ex, it, st, nn, W)
        ex.oblige(st, it.line, 'call', ge(S, IC(0)), W + ': number of samples not negative')
        if below is not None: ex.oblige(st, it.line, 'call', and_(lt(S, below), ge(S, IC(1))), W + ': the recursion is given fewer samples')
        nx, ny = mul(S, net.N0), mul(S, net.NL)
        _rd(ex, it, st, x, nx, W + ' inputs'); _wr(ex, it, st, y, ny, W + ' output'); _sep(ex, it, st, y, ny, x, nx, W)
        ex.oblige(st, it.line, 'call', TRUE if x.base.name == 'X' else FALSE, W + ' reads the sample array')
        o = ex.elemidx(x.off, 4)
        _update(ex, st, y, ny, lambda r: app('pred', R, add(o, mul(intdiv(r, net.NL), net.N0)), intmod(r, net.NL)))
        return st
    return k

@contract('evaluate@blas', {'C19': None, 'C03': SAFETY}, BL, functions=['evaluate'])
def evaluate(cfg):
    import c_net
    c = Ctx(cfg, ['src/evaluate.c']); net = BigNet(c)
    S = c.int('S', 1); N0, NL = net.N0, net.NL
    c.assume(le(mul(S, N0), IC(2 ** 60)), le(mul(S, NL), IC(2 ** 60)))
    M = c.int('M', 0, INT_MAX // 8)
    X = c.array('X', mul(S, N0), 4, False); T_ = c.array('T', mul(S, NL), 4, False); Z = c.array('res', M, 4)
    ms = FnList(c, 'metric', M)
    c.ex.contracts = {'neuralnet_predict': predict_contract(net), 'neuralnet_predict_batch': batch_contract(net), 'metric': c_net.metric_contract(net)}
    c.call('evaluate', net.nn, S, X, T_, ms.reg, Z)
    q = fresh('q', I)
    c.post_elem(Z, M, lambda j: rdiv(msum(IC(0), S, q, app('met', R, j, q)), toR(S)), 'result j is the mean of metric j over the samples')
    c.satisfiable()
    return c

# ------------------------------------------------------------------ batch prediction
class BatchSpec:
    """vectors of the samples: element r of vector l of sample s; vector 0 is the input, vector L the prediction"""
    def __init__(self, net, L, S): self.net, self.L, self.S = net, L, S
    def A(self, l, s, r):
        if l == 0: return app('X', R, add(mul(s, self.net.N[0]), r))
        if l == self.L: return app('pred', R, mul(s, self.net.N[0]), r)
        return app('b_%d' % l, R, s, r)
    def pre(self, l, s, r):
        q = fresh('q', I)
        return add(app('B%d' % (l - 1), R, r), msum(IC(0), self.net.N[l - 1], q, mul(self.A(l - 1, s, q), app('W%d' % (l - 1), R, add(mul(q, self.net.N[l]), r)))))
    def act(self, l):
        """activation of layer l (1-based): applied to pre-activations of whole samples; softmax only to one sample at a time"""
        m = self.net.N[l]
        def k(ex, f, it, st, a):
            n, y = a; _ptrs(ex, it, st, y); W = 'activation of layer %d' % (l - 1)
            if ex.lastC is None: ex.oblige(st, it.line, 'call', FALSE, W + ' comes after the matrix product'); raise Unsupported('activation before the matrix product')
            _wr(ex, it, st, y, n, W)
            ok = isinstance(y, Ptr) and y.base is ex.lastC.base
            ex.oblige(st, it.line, 'call', TRUE if ok else FALSE, W + ' is applied to the result of the matrix product')
            o = ex.elemidx(y.off, 4); d = sub(o, ex.elemidx(ex.lastC.off, 4)); s0 = solve.simp(intdiv(d, m), st.facts())
            ex.oblige_eq(st, it.line, 'call', mul(s0, m), d, W + ': begins with a whole sample')
            cnt = solve.simp(intdiv(n, m), st.facts()); ex.oblige_eq(st, it.line, 'call', mul(cnt, m), n, W + ': whole samples')
            issm = eq(app('fncode_act_%d' % (l - 1), I, IC(0)), app('fncode_softmax_fn', I, IC(0)))
            ex.oblige(st, it.line, 'call', or_(not_(issm), eq(n, m)), W + ': softmax is applied to one sample at a time')
            s, r = fresh('s', I), fresh('r', I); s2 = st.fork(); s2.assume(and_(ge(s, IC(0)), lt(s, cnt), ge(r, IC(0)), lt(r, m)))
            c = _content(ex, st, y)
            ex.oblige_eq(s2, it.line, 'call', c(add(mul(s, m), r)), self.pre(l, add(s0, s), r), W + ' receives bias + W^T * previous vector of the sample')
            if cnt is IC(1): _update(ex, st, y, m, lambda r: self.A(l, s0, r))
            else: _update(ex, st, y, n, lambda r: self.A(l, add(s0, intdiv(r, m)), intmod(r, m)))
            return st
        return k

def batch_ctx(cfg, L):
    c = Ctx(cfg, ['src/neuralnet_predict_batch.c'])
    net = Net(c, L); S = c.int('S', 0); net.N0, net.NL = net.N[0], net.N[L]; net.is_net = lambda *a: BigNet.is_net(net, *a)
    c.assume(le(mul(S, net.N0), IC(2 ** 60)), le(mul(S, net.NL), IC(2 ** 60)))
    X = c.array('X', mul(S, net.N0), 4, False); Y = c.array('Y', mul(S, net.NL), 4)
    sp = BatchSpec(net, L, S); c.ex.lastC = None
    smf = Fn.get('softmax_fn')
    def gemm(ex, f, it, st, a):
        ex.lastC = a[12]; return sgemm(ex, f, it, st, a)
    def getact(ex, f, it, st, a):
        lit = cstr.conc(bytestr.one(st, a[0], 'get_activation_func'))
        if lit is None: raise Unsupported('name of the activation')
        st.env[it.res] = Ptr(Fn.get(lit.decode('latin1') + '_fn'), 0); return st
    # a static pointer of the translation unit is null or the softmax function, before and after every call
    f, m = c.f('neuralnet_predict_batch'); c.statics = []
    for g, d in m.globals.items():
        if d['internal'] and not d['const'] and not d['ext'] and d['ty'][0] == 'ptr':
            c.ex.extern[g] = PIte([(var('set_' + g, B), Ptr(smf, 0)), (TRUE, NULL)]); c.statics.append((g, m))
    c.smf = smf
    c.ex.contracts = {'cblas_sgemm': gemm, 'neuralnet_predict': predict_contract(net), 'neuralnet_predict_batch': batch_contract(net, S), 'get_activation_func': getact}
    for l in range(L): c.ex.contracts['act_%d' % l] = sp.act(l + 1)
    return c, net, S, X, Y
@contract('neuralnet_predict_batch@blas', {'C21': None, 'C03': SAFETY}, BL, functions=['neuralnet_predict_batch'])
def batch(cfg):
    out = []
    for L in (1, 2, 3):
        c, net, S, X, Y = batch_ctx(cfg, L)
        c.call('neuralnet_predict_batch', net.nn, S, X, Y)
        s, r = fresh('s', I), fresh('r', I); st = c.st.fork()
        for t in (ge(s, IC(0)), lt(s, S), ge(r, IC(0)), lt(r, net.NL)): st.assume(t)
        c.post_eq(st.mem[Y].at(add(mul(s, net.NL), r)), app('pred', R, mul(s, net.N0), r), 'sample s of the batch is predicted like the single sample', st)
        for g, m in c.statics:
            v = c.st.mem[c.ex.globalregion(c.st, g, m)][0][1]
            ok = or_(*[cond for cond, p in alts(v) if p.base is c.smf or p.base is None])
            c.ex.oblige(c.st, 0, 'post', ok, 'static pointer stays null or the softmax function')
        c.satisfiable(); out.append(c)
    return out
