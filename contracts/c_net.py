"""Contracts of prediction, back-propagation, parameter layout, evaluation and batch prediction."""
from harness import *
from nets import *
import nets
NN = ['src/neuralnet.c']
DEPTHS = [1]        # networks of one layer; deeper networks are the tasks named @deep

@contract('neuralnet_predict@one', {'C01': None, 'C03': SAFETY}, ISA + ['cblas'], functions=['neuralnet_predict'])
def predict(cfg):
    out = []
    for L in DEPTHS:
        c = Ctx(cfg, NN)
        net = Net(c, L)
        X = c.array('X', net.N[0], 4, False); Y = c.array('Y', net.N[L], 4)
        c.ex.contracts = dict(KERNELS); c.ex.contracts.update(net.contracts(lambda i: app('X', R, i)))
        c.call('neuralnet_predict', net.nn, X, Y)
        c.post_elem(Y, net.N[L], lambda r: app('a_%d' % L, R, r), 'output is the last activation (%d layers)' % L)
        c.satisfiable()
        out.append(c)
    return out

@contract('neuralnet_backpropagation@one', {'C04': None, 'C03': SAFETY, 'C16': ('post',)}, ISA + ['cblas'], functions=['neuralnet_backpropagation'])
def backprop(cfg):
    out = []
    for L in DEPTHS:
        c = Ctx(cfg, NN)
        net = Net(c, L)
        X = c.array('X', net.N[0], 4, False); T_ = c.array('T', net.N[L], 4, False)
        G = c.array('G', net.P, c.align)
        c.ex.contracts = dict(KERNELS); c.ex.contracts.update(net.contracts(lambda i: app('X', R, i)))
        c.call('neuralnet_backpropagation', net.nn, X, T_, G)
        for l in range(L):
            r = fresh('r', I); s = c.st.fork()
            for t in (ge(r, IC(0)), lt(r, net.N[l + 1])): s.assume(t)
            c.post_eq(s.mem[G].at(add(net.boff(l), r)), app('delta_%d' % l, R, r), 'gradient: biases of layer %d of %d' % (l, L), s)
            i, j = fresh('i', I), fresh('j', I); s = c.st.fork()
            for t in (ge(i, IC(0)), lt(i, net.N[l]), ge(j, IC(0)), lt(j, net.N[l + 1])): s.assume(t)
            c.post_eq(s.mem[G].at(add(net.woff(l), add(mul(i, net.N[l + 1]), j))), mul(net.a(l, i, lambda i: app('X', R, i)), app('delta_%d' % l, R, j)), 'gradient: weights of layer %d of %d' % (l, L), s)
        c.satisfiable()
        out.append(c)
    return out

@contract('neuralnet_predict_batch', {'C21': None, 'C03': SAFETY}, ISA4, functions=['neuralnet_predict_batch'])
def batch(cfg):
    c = Ctx(cfg, ['src/neuralnet_predict_batch.c']); net = BigNet(c)
    S = c.int('S', 0); N0, NL = net.N0, net.NL
    c.assume(le(mul(S, N0), IC(2 ** 60)), le(mul(S, NL), IC(2 ** 60)))
    X = c.array('X', mul(S, N0), 4, False); Y = c.array('Y', mul(S, NL), 4)
    c.ex.contracts = {'neuralnet_predict': predict_contract(net)}
    c.call('neuralnet_predict_batch', net.nn, S, X, Y)
    s, r = fresh('s', I), fresh('r', I); st = c.st.fork()
    for t in (ge(s, IC(0)), lt(s, S), ge(r, IC(0)), lt(r, NL)): st.assume(t)
    c.post_eq(st.mem[Y].at(add(mul(s, NL), r)), app('pred', R, mul(s, N0), r), 'sample s of the batch is predicted like the single sample', st)
    c.satisfiable()
    return c

def metric_contract(net):
    """metric j of the list applied to sample s returns met(j, s)"""
    def k(ex, f, it, st, a):
        j = ex.callee_index
        n, p, t = a; nets._ptrs(ex, it, st, p, t)
        ex.oblige_eq(st, it.line, 'call', n, net.NL, 'metric is applied to n_output elements')
        nets._rd(ex, it, st, p, n, 'metric prediction'); nets._rd(ex, it, st, t, n, 'metric target')
        ex.oblige(st, it.line, 'call', TRUE if t.base.name == 'T' else FALSE, 'metric receives the target array')
        o = ex.elemidx(t.off, 4)
        # o == s*NL for the sample s; the prediction handed in must be that sample's
        s = solve.simp(intdiv(o, net.NL), st.facts())
        ex.oblige_eq(st, it.line, 'call', mul(s, net.NL), o, 'metric target is a whole sample')
        r = fresh('r', I); s2 = st.fork(); s2.assume(ge(r, IC(0))); s2.assume(lt(r, net.NL))
        ex.oblige_eq(s2, it.line, 'call', nets._content(ex, st, p)(r), app('pred', R, mul(s, net.N0), r), "metric receives the network's prediction for the sample")
        if it.res is not None: st.env[it.res] = app('met', R, j, s)
        return st
    return k

@contract('evaluate', {'C19': None, 'C03': SAFETY}, ISA4, functions=['evaluate'])
def evaluate(cfg):
    c = Ctx(cfg, ['src/evaluate.c']); net = BigNet(c)
    S = c.int('S', 1); N0, NL = net.N0, net.NL
    c.assume(le(mul(S, N0), IC(2 ** 60)), le(mul(S, NL), IC(2 ** 60)))
    M = c.int('M', 0, INT_MAX // 8)
    X = c.array('X', mul(S, N0), 4, False); T_ = c.array('T', mul(S, NL), 4, False); Z = c.array('res', M, 4)
    ms = FnList(c, 'metric', M)
    c.ex.contracts = {'neuralnet_predict': predict_contract(net), 'metric': metric_contract(net)}
    c.call('evaluate', net.nn, S, X, T_, ms.reg, Z)
    q = fresh('q', I)
    c.post_elem(Z, M, lambda j: rdiv(msum(IC(0), S, q, app('met', R, j, q)), toR(S)), 'result j is the mean of metric j over the samples')
    c.satisfiable()
    return c

import deep
from deep import DeepNet, resolved
@contract('neuralnet_predict@deep', {'C01': None, 'C03': SAFETY}, ISA + ['cblas'], functions=['neuralnet_predict'])
def predict_deep(cfg):
    c = Ctx(cfg, NN); D = DeepNet(c)
    X = c.array('X', D.N_(IC(0)), 4, False, content=lambda v: app('a', R, IC(0), v)); Y = c.array('Y', D.N_(D.L), 4)
    fw = deep.Forward(D, X, Y, keep=False)
    c.ex.contracts = {k: resolved(v) for k, v in KERNELS.items()}; c.ex.contracts['layer_activation'] = resolved(fw.activation)
    c.ex.loop_hooks = [fw.hook, D.setup]
    c.call('neuralnet_predict', D.nn, X, Y)
    c.post_eq(fw.pos(c.st), D.L, 'every layer is computed')
    c.post_elem(Y, D.N_(D.L), lambda r: app('a', R, D.L, r), 'output is the vector of the last layer')
    c.satisfiable()
    return c

@contract('neuralnet_backpropagation@deep', {'C04': None, 'C03': SAFETY, 'C16': ('post', 'loop')}, ISA + ['cblas'], functions=['neuralnet_backpropagation'])
def backprop_deep(cfg):
    c = Ctx(cfg, NN); D = DeepNet(c)
    X = c.array('X', D.N_(IC(0)), 4, False, content=lambda v: app('a', R, IC(0), v)); T_ = c.array('T', D.N_(D.L), 4, False)
    G = c.array('G', D.P, c.align)
    fw = deep.Forward(D, X, None); bw = deep.Backward(D, fw, G)
    c.ex.contracts = {k: resolved(v) for k, v in KERNELS.items()}
    c.ex.contracts.update(layer_activation=resolved(fw.activation), layer_derivative=resolved(bw.derivative), loss_fn=resolved(bw.loss), neuralnet_total_n_parameters=D.total)
    c.ex.loop_hooks = [fw.hook, bw.hook, D.setup]
    c.call('neuralnet_backpropagation', D.nn, X, T_, G)
    c.post_eq(bw.left(c.st), IC(0), 'every layer is done')
    def done(j, what):
        s = c.st.fork(); D.facts(s, j); m = D.N_(add(j, IC(1))); r = fresh('r', I)
        s1 = s.fork(); s1.assume(and_(ge(r, IC(0)), lt(r, m)))
        c.post_eq(s1.mem[G].at(add(D.OFF(j), r)), app('delta', R, j, r), 'gradient: biases of ' + what, s1)
        x, y = fresh('i', I), fresh('j', I); s1 = s.fork(); s1.assume(and_(ge(x, IC(0)), lt(x, D.N_(j)))); s1.assume(and_(ge(y, IC(0)), lt(y, m)))
        ix = add(mul(x, m), y); s1.assume(and_(ge(ix, IC(0)), lt(ix, mul(D.N_(j), m))))
        c.post_eq(s1.mem[G].at(add(D.woff(j), ix)), mul(app('a', R, j, x), app('delta', R, j, y)), 'gradient: weights of ' + what, s1)
    done(IC(0), 'the first layer')
    c.st.assume(and_(gt(bw.J, IC(0)), lt(bw.J, D.L)))
    done(bw.J, 'any other layer')
    c.satisfiable()
    return c

@contract('parameters@deep', {'C16': None, 'C03': SAFETY}, ['nosimd', 'avx', 'avx512'], functions=['neuralnet_get_parameters', 'neuralnet_update', 'neuralnet_total_n_parameters'])
def parameters_deep(cfg):
    out = []
    c = Ctx(cfg, NN); D = DeepNet(c, 1)
    c.ex.loop_hooks = [D.setup]
    rv = c.call('neuralnet_total_n_parameters', D.nn)
    c.post_eq(rv, D.P, 'number of parameters'); c.satisfiable(); out.append(c)
    # reading
    c = Ctx(cfg, NN); D = DeepNet(c, 1); p = c.array('p', D.P, 4)
    J = var('J_layer', I); RANGES[J] = (Fraction(0), Fraction(INT_MAX)); c.assume(ge(J, IC(0)))
    def state(ex, st, k):
        D.facts(st, J); D.order(st, J, k)
        v = fresh('r', I); o, w, e = D.OFF(J), D.woff(J), add(D.OFF(J), D.block(J)); cond = lt(J, k)
        st.mem[p] = Arr(v, ite(and_(cond, window(v, o, w)), app('B', R, J, sub(v, o)), ite(and_(cond, window(v, w, e)), app('W', R, J, sub(v, w)), app('rest', R, v))))
    def blk(st, j, what, ob):
        for o, n, sym in ((D.OFF(j), D.N_(add(j, IC(1))), 'B'), (D.woff(j), mul(D.N_(j), D.N_(add(j, IC(1)))), 'W')):
            r = fresh('r', I); s = st.fork(); s.assume(and_(ge(r, IC(0)), lt(r, n)))
            ob(s, s.mem[p].at(add(o, r)), app(sym, R, j, r), '%s (%s)' % (what, 'biases' if sym == 'B' else 'weights'))
    def step(ex, st, line, k):
        ob = lambda s, a, b, d: ex.oblige_eq(s, line, 'loop', a, b, d)
        blk(st, k, 'parameters of the layer are copied to its place', ob)
        s = st.fork(); s.assume(lt(J, k))
        if not solve.infeasible(s.facts()): blk(s, J, 'parameters of earlier layers stay', ob)
    c.ex.contracts = {k: resolved(v) for k, v in KERNELS.items()}
    ll = deep.LayerLoop(D, {p}, state, lambda ex, st, line: None, step, 'neuralnet_get_parameters'); c.ex.loop_hooks = [ll.hook]
    c.call('neuralnet_get_parameters', D.nn, p)
    c.st.assume(lt(J, D.L)); D.facts(c.st, J)
    blk(c.st, J, 'neuralnet_get_parameters: any layer', lambda s, a, b, d: c.post_eq(a, b, d, s))
    c.satisfiable(); out.append(c)
    # update: the layer at hand is any layer k
    c = Ctx(cfg, NN); D = DeepNet(c, 1); d = c.array('d', D.P, 4, False)
    ll = deep.LayerLoop(D, (), None, None, None, 'neuralnet_update'); k = ll.k
    n = D.N_(add(k, IC(1))); nm = mul(D.N_(k), n); D.facts(c.st, k)
    W = c.array('W_k', nm, 4, content=lambda v: app('W', R, k, v)); Bi = c.array('B_k', n, 4, content=lambda v: app('B', R, k, v))
    D.pregs = {('weight', k): W, ('bias', k): Bi}
    org = {W: c.st.mem[W], Bi: c.st.mem[Bi]}
    def state(ex, st, p):
        for r in org: st.mem[r] = org[r]
    def entry(ex, st, line):
        for r in org:
            x = fresh('r', I); ex.oblige_eq(st, line, 'loop', st.mem[r].at(x), org[r].at(x), 'nothing is written before the loop over the layers')
    def step(ex, st, line, p):
        for reg, m, o in ((Bi, n, D.OFF(k)), (W, nm, D.woff(k))):
            r = fresh('r', I); s = st.fork(); s.assume(and_(ge(r, IC(0)), lt(r, m)))
            ex.oblige_eq(s, line, 'loop', s.mem[reg].at(r), add(org[reg].at(r), app('d', R, add(o, r))), 'each parameter grows by the entry at its own position (%s)' % reg.name)
    ll.tracked, ll.state, ll.entry, ll.step = {W, Bi}, state, entry, step
    c.ex.contracts = {k: resolved(v) for k, v in KERNELS.items()}; c.ex.loop_hooks = [ll.hook]
    c.call('neuralnet_update', D.nn, d)
    c.post(TRUE if ll.hits == 1 else FALSE, 'neuralnet_update visits the layers')
    c.satisfiable(); out.append(c)
    return out
