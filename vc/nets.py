"""Call-site contracts of the kernels (verified on their own by c_kernels.py) and symbolic
networks for the contracts of the network-level functions."""
from harness import *
from layout import layout
import execu

def _ptrs(ex, it, st, *ps):
    for p in ps:
        if not isinstance(p, Ptr): raise Unsupported('conditional pointer passed to a kernel')
        if p.base is None or isinstance(p.base, Fn):
            ex.oblige(st, it.line, 'null', FALSE, 'null pointer passed to a kernel'); raise Unsupported('null pointer passed to a kernel')

def _rd(ex, it, st, p, n, what):
    """requires: n floats readable at p"""
    ex.bounds(st, p, tm.scale(n, 4), it.line, what)
def _wr(ex, it, st, p, n, what):
    ex.bounds(st, p, tm.scale(n, 4), it.line, what)
    if not p.base.writable: ex.oblige(st, it.line, 'write', FALSE, '%s: write to read-only %s' % (what, p.base.name))
def _sep(ex, it, st, p, n, q, m, what):
    """requires: [p,p+n) and [q,q+m) (floats) are disjoint"""
    if p.base is not q.base: return
    a, b = tm.scale(n, 4), tm.scale(m, 4)
    ex.oblige(st, it.line, 'call', or_(le(add(p.off, a), q.off), le(add(q.off, b), p.off), le(a, IC(0)), le(b, IC(0))), '%s: operands do not overlap' % what)
def _content(ex, st, p):
    """function i -> element i at pointer p"""
    c = st.mem.get(p.base)
    if not isinstance(c, Arr): raise Unsupported('kernel operand %s is not a float array' % p.base.name)
    o = ex.elemidx(p.off, 4)
    if o is None: raise Unsupported('kernel operand not element aligned')
    return lambda i: c.at(add(o, i))
def _update(ex, st, p, n, val):
    """ensures: element i of p is val(i) for 0<=i<n, everything else unchanged"""
    c = st.mem[p.base]; o = ex.elemidx(p.off, 4)
    v = c.v
    new = ite(window(v, o, add(o, n)), val(sub(v, o)), c.body)
    st.mem[p.base] = Arr(v, new)
def _alignreq(ex, it, st, p, what):
    ex.alignob(st, p, ALIGN[ex.config], it.line, what)

def _sizes(ex, it, st, n, m, W):
    lo = IC(1) if ex.config == 'cblas' else IC(0)          # the BLAS kernels are under contract for sizes from one
    ex.oblige(st, it.line, 'call', and_(ge(n, lo), ge(m, lo)), W + (': sizes are positive' if lo is IC(1) else ': sizes not negative'))
def k_vmm(ex, f, it, st, a):
    n, m, w, b, x, y = a; _ptrs(ex, it, st, w, b, x, y); W = 'vector_matrix_multiply'
    nm = mul(n, m)
    _sizes(ex, it, st, n, m, W)
    ex.oblige(st, it.line, 'call', le(nm, IC(INT_MAX)), W + ': matrix size fits int')
    _rd(ex, it, st, w, nm, W + ' weight'); _rd(ex, it, st, b, m, W + ' bias'); _rd(ex, it, st, x, n, W + ' input'); _wr(ex, it, st, y, m, W + ' result')
    for p, k, s in ((w, nm, 'weight'), (b, m, 'bias'), (x, n, 'input')): _sep(ex, it, st, y, m, p, k, W + ' ' + s)
    cw, cb, cx = _content(ex, st, w), _content(ex, st, b), _content(ex, st, x)
    q = fresh('q', I)
    _update(ex, st, y, m, lambda r: add(cb(r), msum(IC(0), n, q, mul(cx(q), cw(add(mul(q, m), r))))))
    return st
def k_mvm(ex, f, it, st, a):
    n, m, w, x, y = a; _ptrs(ex, it, st, w, x, y); W = 'matrix_vector_multiply'
    nm = mul(n, m)
    _sizes(ex, it, st, n, m, W)
    ex.oblige(st, it.line, 'call', le(nm, IC(INT_MAX)), W + ': matrix size fits int')
    _rd(ex, it, st, w, nm, W + ' matrix'); _rd(ex, it, st, x, m, W + ' vector'); _wr(ex, it, st, y, n, W + ' result')
    for p, k, s in ((w, nm, 'matrix'), (x, m, 'vector')): _sep(ex, it, st, y, n, p, k, W + ' ' + s)
    cw, cx = _content(ex, st, w), _content(ex, st, x)
    q = fresh('q', I)
    _update(ex, st, y, n, lambda r: msum(IC(0), m, q, mul(cx(q), cw(add(mul(r, m), q)))))
    return st
def k_outer(ex, f, it, st, a):
    n, m, x, y, w = a; _ptrs(ex, it, st, x, y, w); W = 'vector_vector_outer'
    nm = mul(n, m)
    _sizes(ex, it, st, n, m, W)
    ex.oblige(st, it.line, 'call', le(nm, IC(INT_MAX)), W + ': matrix size fits int')
    _rd(ex, it, st, x, n, W + ' x'); _rd(ex, it, st, y, m, W + ' y'); _wr(ex, it, st, w, nm, W + ' matrix')
    for p, k, s in ((x, n, 'x'), (y, m, 'y')): _sep(ex, it, st, w, nm, p, k, W + ' ' + s)
    r = fresh('r', I); s2 = st.fork(); s2.assume(ge(r, IC(0))); s2.assume(lt(r, nm))
    cw = _content(ex, st, w)
    ex.oblige_eq(s2, it.line, 'call', cw(r), RC(0), W + ': matrix is zero at entry')
    cx, cy = _content(ex, st, x), _content(ex, st, y)
    _update(ex, st, w, nm, lambda r: mul(cx(intdiv(r, m)), cy(intmod(r, m))))
    return st
def elementwise(name, order, dst, srcs, val, aligned=True):
    def k(ex, f, it, st, a):
        d = dict(zip(order, a)); n = d['n']
        ps = [d[dst]] + [d[s] for s in srcs]
        _ptrs(ex, it, st, *ps)
        ex.oblige(st, it.line, 'call', ge(n, IC(0)), name + ': length not negative')
        _wr(ex, it, st, d[dst], n, name + ' result')
        for s in srcs: _rd(ex, it, st, d[s], n, name + ' operand')
        if aligned:
            for p in ps: _alignreq(ex, it, st, p, name)
        for s in srcs:
            if d[s].base is d[dst].base and d[s].off is not d[dst].off: _sep(ex, it, st, d[dst], n, d[s], n, name)
        if 'div' in d: ex.oblige(st, it.line, 'div', ne(d['div'], RC(0)), name + ': divisor is not zero')
        C = {dst: _content(ex, st, d[dst])}
        for s in srcs: C[s] = _content(ex, st, d[s])
        _update(ex, st, d[dst], n, lambda r: val(C, d, r))
        return st
    return k
KERNELS = {
    'vector_matrix_multiply': k_vmm, 'matrix_vector_multiply': k_mvm, 'vector_vector_outer': k_outer,
    'vector_accumulate': elementwise('vector_accumulate', ['n', 'a', 'b'], 'a', ['b'], lambda C, d, r: add(C['a'](r), C['b'](r))),
    'vector_accumulate_unaligned': elementwise('vector_accumulate_unaligned', ['n', 'a', 'b'], 'a', ['b'], lambda C, d, r: add(C['a'](r), C['b'](r)), False),
    'vector_scale': elementwise('vector_scale', ['n', 'v', 's'], 'v', [], lambda C, d, r: mul(C['v'](r), d['s'])),
    'vector_divide_by_scalar': elementwise('vector_divide_by_scalar', ['n', 'v', 'div'], 'v', [], lambda C, d, r: rdiv(C['v'](r), d['div'])),
    'vector_saxpy': elementwise('vector_saxpy', ['n', 'a', 's', 'b'], 'a', ['b'], lambda C, d, r: add(C['a'](r), mul(d['s'], C['b'](r)))),
    'vector_saxpby': elementwise('vector_saxpby', ['n', 'a', 's', 'b', 't'], 'a', ['b'], lambda C, d, r: add(mul(d['t'], C['a'](r)), mul(d['s'], C['b'](r)))),
    'vector_square_elements': elementwise('vector_square_elements', ['n', 'y', 'x'], 'y', ['x'], lambda C, d, r: mul(C['x'](r), C['x'](r))),
}

# ------------------------------------------------------------------ symbolic networks
LAYER = ['n_input', 'n_output', 'weight', 'bias', 'activation_func', 'activation_derivative']
NET = ['n_layers', 'layer', 'loss']

class Net:
    """a valid network of L layers with symbolic sizes"""
    def __init__(self, c, L, writable=False, fns=None):
        self.c, self.L = c, L
        ll = layout('neuralnet.h', 'layer_t', LAYER, c.cfg); nl = layout('neuralnet.h', 'neuralnet_t', NET, c.cfg)
        self.ll, self.nl = ll, nl
        self.N = [c.int('N%d' % i, 1) for i in range(L + 1)]
        N = self.N
        P = IC(0); S = IC(0)
        self.P_parts = []
        for l in range(L):
            c.assume(le(mul(N[l], N[l + 1]), IC(INT_MAX)))
            P = add(P, add(N[l + 1], mul(N[l], N[l + 1])))
        for n in N: S = add(S, n)
        self.P = P
        c.assume(le(P, IC(INT_MAX // 4 - 64)))             # the parameter vector is indexable with int
        c.assume(le(S, IC(INT_MAX // 4 - 64 * (L + 1))))
        self.W = [c.array('W%d' % l, mul(N[l], N[l + 1]), 4, writable) for l in range(L)]
        self.B = [c.array('B%d' % l, N[l + 1], 4, writable) for l in range(L)]
        self.act = [Fn.get('act_%d' % l) if not fns else Fn.get(fns[l]) for l in range(L)]
        self.der = [Fn.get('der_%d' % l) for l in range(L)]
        self.loss = Fn.get('loss_fn')
        layers = Region('layers', 'cells', IC(ll['sizeof'] * L), writable=False, align=16)
        cells = {}
        for l in range(L):
            o = l * ll['sizeof']
            cells[o + ll['n_input']] = (4, N[l]); cells[o + ll['n_output']] = (4, N[l + 1])
            cells[o + ll['weight']] = (8, Ptr(self.W[l], 0)); cells[o + ll['bias']] = (8, Ptr(self.B[l], 0))
            cells[o + ll['activation_func']] = (8, Ptr(self.act[l], 0)); cells[o + ll['activation_derivative']] = (8, Ptr(self.der[l], 0))
        c.st.mem[layers] = cells
        nn = Region('nn', 'cells', IC(nl['sizeof']), writable=False, align=16)
        c.st.mem[nn] = {nl['n_layers']: (4, IC(L)), nl['layer']: (8, Ptr(layers, 0)), nl['loss']: (8, Ptr(self.loss, 0))}
        self.layers, self.nn = layers, nn
    # spec -----------------------------------------------------------------
    def a(self, l, i, x):
        """activation vector of layer l (0 = input), element i"""
        return x(i) if l == 0 else app('a_%d' % l, R, i)
    def z(self, l, i, x):
        """pre-activation of layer l (1..L)"""
        q = fresh('q', I)
        return add(app('B%d' % (l - 1), R, i), msum(IC(0), self.N[l - 1], q, mul(self.a(l - 1, q, x), app('W%d' % (l - 1), R, add(mul(q, self.N[l]), i)))))
    def boff(self, l):
        """offset of layer l's biases (0-based) in the parameter vector"""
        o = IC(0)
        for k in range(l): o = add(o, add(self.N[k + 1], mul(self.N[k], self.N[k + 1])))
        return o
    def woff(self, l): return add(self.boff(l), self.N[l + 1])
    # contracts of the function pointers --------------------------------------
    def contracts(self, x):
        """ghost contracts: called on exactly the specified vectors, they deliver the specified vectors"""
        C = {}
        for l in range(self.L): C['act_%d' % l] = self._act(l, x); C['der_%d' % l] = self._der(l, x)
        C['loss_fn'] = self._loss(x)
        return C
    def _act(self, l, x):
        def k(ex, f, it, st, a):
            n, y = a; _ptrs(ex, it, st, y)
            ex.oblige_eq(st, it.line, 'call', n, self.N[l + 1], 'activation of layer %d is applied to n_output elements' % l)
            _wr(ex, it, st, y, n, 'activation %d' % l)
            r = fresh('r', I); s = st.fork(); s.assume(ge(r, IC(0))); s.assume(lt(r, self.N[l + 1]))
            ex.oblige_eq(s, it.line, 'call', _content(ex, st, y)(r), self.z(l + 1, r, x), 'layer %d: activation receives bias + W^T * previous activations' % l)
            _update(ex, st, y, self.N[l + 1], lambda r: app('a_%d' % (l + 1), R, r))
            return st
        return k
    def _loss(self, x):
        L = self.L
        def k(ex, f, it, st, a):
            n, p, t, g = a; _ptrs(ex, it, st, p, t, g)
            ex.oblige_eq(st, it.line, 'call', n, self.N[L], 'loss is applied to n_output elements')
            _rd(ex, it, st, p, n, 'loss prediction'); _rd(ex, it, st, t, n, 'loss target'); _wr(ex, it, st, g, n, 'loss gradient')
            r = fresh('r', I); s = st.fork(); s.assume(ge(r, IC(0))); s.assume(lt(r, self.N[L]))
            ex.oblige_eq(s, it.line, 'call', _content(ex, st, p)(r), self.a(L, r, x), 'loss receives the network output')
            ex.oblige_eq(s, it.line, 'call', _content(ex, st, t)(r), app('T', R, r), 'loss receives the target')
            _sep(ex, it, st, g, n, p, n, 'loss'); _sep(ex, it, st, g, n, t, n, 'loss')
            _update(ex, st, g, self.N[L], lambda r: app('dloss', R, r))
            return st
        return k
    def pre_delta(self, l, r):
        """what the derivative of layer l is applied to"""
        if l == self.L - 1: return app('dloss', R, r)
        q = fresh('q', I)
        return msum(IC(0), self.N[l + 2], q, mul(app('W%d' % (l + 1), R, add(mul(r, self.N[l + 2]), q)), app('delta_%d' % (l + 1), R, q)))
    def _der(self, l, x):
        def k(ex, f, it, st, a):
            n, p, g = a; _ptrs(ex, it, st, p, g)
            ex.oblige_eq(st, it.line, 'call', n, self.N[l + 1], 'derivative of layer %d is applied to n_output elements' % l)
            _rd(ex, it, st, p, n, 'derivative activation'); _wr(ex, it, st, g, n, 'derivative gradient')
            r = fresh('r', I); s = st.fork(); s.assume(ge(r, IC(0))); s.assume(lt(r, self.N[l + 1]))
            ex.oblige_eq(s, it.line, 'call', _content(ex, st, p)(r), self.a(l + 1, r, x), 'derivative of layer %d receives the activations of the layer' % l)
            ex.oblige_eq(s, it.line, 'call', _content(ex, st, g)(r), self.pre_delta(l, r), 'derivative of layer %d receives the back-propagated gradient' % l)
            _sep(ex, it, st, g, n, p, n, 'derivative')
            _update(ex, st, g, self.N[l + 1], lambda r: app('delta_%d' % l, R, r))
            return st
        return k

def predict_contract(net, S=None, io='X', kind='pred'):
    """contract of neuralnet_predict at call sites: output[r] = pred(input vector, r)"""
    def k(ex, f, it, st, a):
        nn, inp, out = a; _ptrs(ex, it, st, nn, inp, out)
        ex.oblige(st, it.line, 'call', TRUE if nn.base is net.nn and nn.off is IC(0) else FALSE, 'neuralnet_predict is given the network')
        _rd(ex, it, st, inp, net.N0, 'neuralnet_predict input'); _wr(ex, it, st, out, net.NL, 'neuralnet_predict output')
        _sep(ex, it, st, out, net.NL, inp, net.N0, 'neuralnet_predict')
        ex.oblige(st, it.line, 'call', TRUE if inp.base.name == io else FALSE, 'neuralnet_predict reads the sample array')
        o = ex.elemidx(inp.off, 4)
        _update(ex, st, out, net.NL, lambda r: app(kind, R, o, r))
        return st
    return k

# ------------------------------------------------------------------ networks of any depth
class LayersHandler:
    """the layer array of a network with a symbolic number of layers (read only)"""
    def __init__(self, net): self.net = net
    def split(self, off, S):
        d = pd(off); c0 = int(d.get((), 0)); f = c0 % S
        o = sub(off, IC(f))
        for m, k in pd(o).items():
            if k % S: raise Unsupported('offset %s into the layer array' % pp(off)[:80])
        return tm.scale(o, Fraction(1, S)), f
    def load(self, ex, st, ty, p, line):
        net = self.net; S = net.ll['sizeof']
        if ty[0] in ('struct', 'pstruct'):
            offs, _ = execu.struct_layout(ex.curmod, ty)
            return Agg(self.load(ex, st, ex.res(t), Ptr(p.base, add(p.off, IC(o))), line) for o, t in zip(offs, ty[2]))
        idx, f = self.split(p.off, S)
        for nm in LAYER:
            if net.ll[nm] == f: return net.field(ex, st, nm, idx)
        raise Unsupported('field at offset %d of layer_t' % f)
    def store(self, ex, st, ty, v, p, line): return

class BigNet:
    """a valid network with a symbolic number of layers; only sizes are visible"""
    def __init__(self, c):
        self.c = c
        self.ll = layout('neuralnet.h', 'layer_t', LAYER, c.cfg); self.nl = layout('neuralnet.h', 'neuralnet_t', NET, c.cfg)
        self.L = c.int('n_layers', 1, INT_MAX // 64)
        self.N0, self.NL = c.int('N_in', 1), c.int('N_out', 1)
        self.P = c.int('P', 1, INT_MAX // 4 - 64)
        self.layers = Region('layers', 'cells', tm.scale(self.L, self.ll['sizeof']), writable=False, align=16)
        self.layers.handler = LayersHandler(self); c.st.mem[self.layers] = {}
        self.nn = Region('nn', 'cells', IC(self.nl['sizeof']), writable=False, align=16)
        self.loss = Fn.get('loss_fn')
        c.st.mem[self.nn] = {self.nl['n_layers']: (4, self.L), self.nl['layer']: (8, Ptr(self.layers, 0)), self.nl['loss']: (8, Ptr(self.loss, 0))}
    def field(self, ex, st, nm, idx):
        if nm in ('n_input', 'n_output'):
            if nm == 'n_input' and idx is IC(0): return self.N0
            if nm == 'n_output' and idx is sub(self.L, IC(1)): return self.NL
            v = app('layer_' + nm, I, idx)
            st.assume(and_(ge(v, IC(1)), le(v, IC(INT_MAX))))
            if nm == 'n_input': st.assume(implies(eq(idx, IC(0)), eq(v, self.N0)))
            else: st.assume(implies(eq(idx, sub(self.L, IC(1))), eq(v, self.NL)))
            return v
        if nm in getattr(self, 'params', ()):
            k, reg = self.params[nm]
            ex.oblige(st, 0, 'bounds', eq(idx, k), '%s of the layer at hand' % nm)
            return Ptr(reg, 0)
        if nm == 'activation_func': return Ptr(Fn.get('layer_activation'), idx)
        raise Unsupported('layer field %s of a network of symbolic depth' % nm)
    def is_net(self, ex, it, st, p, what):
        ok = isinstance(p, Ptr) and p.base is self.nn and p.off is IC(0)
        ex.oblige(st, it.line, 'call', TRUE if ok else FALSE, what + ' is given the network')
    def total(self, ex, f, it, st, a):
        self.is_net(ex, it, st, a[0], 'neuralnet_total_n_parameters')
        if it.res is not None: st.env[it.res] = self.P
        return st
    @property
    def N(self): return {0: self.N0, self.L: self.NL}

class FnList:
    """a NULL-terminated array of M function pointers; entry j is the function `name` with index j"""
    def __init__(self, c, name, M, rname='metrics'):
        self.M, self.fn = M, Fn.get(name)
        self.reg = Region(rname, 'cells', tm.scale(add(M, IC(1)), 8), writable=False, align=16)
        self.reg.es = 8; self.reg.stepped = True; self.reg.handler = self; c.st.mem[self.reg] = {}
    def load(self, ex, st, ty, p, line):
        k = ex.elemidx(p.off, 8)
        if k is None or ty[0] not in ('ptr',): raise Unsupported('access to the list %s at %s as %s' % (self.reg.name, pp(p.off)[:80], ty))
        return PIte([(lt(k, self.M), Ptr(self.fn, k)), (TRUE, NULL)])
    def store(self, ex, st, ty, v, p, line): return
