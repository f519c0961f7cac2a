"""Choosing the loss function of a network of any number of layers (C04, C06)."""
from harness import *
import heap, blocks, loops
from blocks import StructArray, FnCodes
from layout import layout
from nets import NET
import c_loss

SRC = ['src/neuralnet.c', INLINES]
ACTS = ['linear', 'sigmoid', 'softmax']     # the names that matter here; any other activation is a member of the family
LOSSES = list(c_loss.LG) + list(c_loss.ALIAS)
SIMPLE = {'binary_crossentropy': 'sigmoid', 'categorical_crossentropy': 'softmax'}

def dname(a): return 'derivative_of_' + a
def one_of(table, unknown):
    """contract of a lookup by name (C08): the function of that name"""
    def g(ex, f, it, st, a):
        out = None
        for cond, q in reversed(heap.feasible(st, a[0])):
            by = cstr.conc(q) if q.base is not None and not isinstance(q.base, Fn) else None
            if by is not None and by.decode() in table: x = Ptr(Fn.get(table[by.decode()]), 0)
            elif by is None and getattr(q.base, 'sym', None) == 'loss_name' and unknown: x = NULL
            else: raise Unsupported('lookup of %s' % (by,))
            out = x if out is None else vite(cond, x, out)
        st.env[it.res] = out; return st
    return g
def derivative(ex, f, it, st, a):
    """contract of get_activation_derivative (C08): the activation's own derivative"""
    out = None
    for cond, q in reversed(heap.feasible(st, a[0])):
        if isinstance(q.base, Fn) and q.base.name in ACTS: x = Ptr(Fn.get(dname(q.base.name)), 0)
        elif isinstance(q.base, Fn) and q.base.name == 'other_activation': x = Ptr(Fn.get('derivative_of_other'), q.off)
        else: ex.oblige(st, it.line, 'call', not_(cond), 'get_activation_derivative is given the activation of a layer'); x = NULL
        out = x if out is None else vite(cond, x, out)
    st.env[it.res] = out; return st

@contract('neuralnet_set_loss', {'C04': None, 'C06': None, 'C03': SAFETY}, ['nosimd', 'avx512'])
def set_loss(cfg):
    out = []
    for nm in LOSSES + [None]:
        c = Ctx(cfg, SRC); ex = c.ex
        n = c.int('n_layers', 1, INT_MAX - 1)
        A = FnCodes(ACTS, 'other_activation'); D = FnCodes([dname(a) for a in ACTS], 'derivative_of_other')
        sa = StructArray(c, 'layers', 'neuralnet.h', 'layer_t', dict(activation_func=A, activation_derivative=D), n); sa.fresh(c.st)
        act0, der0 = c.st.mem[sa.f['activation_func']], c.st.mem[sa.f['activation_derivative']]
        def onload(st, v):      # every layer has an activation (C17, C11)
            for t in subterms(v, lambda t: t.op == 'app' and t.args[0] == 'init_layers_activation_func'): st.assume(ge(t, IC(1)))
        sa.onload = onload
        nl = layout('neuralnet.h', 'neuralnet_t', NET, cfg)
        nn = Region('nn', 'cells', IC(nl['sizeof']), align=16)
        c.st.mem[nn] = {nl['n_layers']: (4, n), nl['layer']: (8, Ptr(sa.reg, 0)), nl['loss']: (8, Ptr(Fn.get('previous_loss'), 0))}
        losses = {k: c_loss.ALIAS.get(k, k) for k in LOSSES}
        ex.contracts = dict(get_loss_func=one_of(losses, True), get_activation_func=one_of({a: a for a in ACTS}, False), get_activation_derivative=derivative)
        s = cstr.litregion(ex, c.st, nm) if nm else cstr.symregion(ex, c.st, 'loss_name')
        c.call('neuralnet_set_loss', Ptr(nn, 0), Ptr(s, 0))
        m = c.st.mem[nn]; tag = 'loss %s: ' % nm if nm else 'unknown loss: '
        p = m[nl['loss']][1]
        if nm: ok = isinstance(p, Ptr) and isinstance(p.base, Fn) and p.base.name == losses[nm]
        else: ok = isinstance(p, Ptr) and p.base is None and prove(c.st.facts(), eq(p.off, IC(0)))
        c.post(TRUE if ok else FALSE, tag + ('the network has the loss function of that name' if nm else 'the network has no loss function'))
        c.post_eq(m[nl['n_layers']][1], n, tag + 'number of layers unchanged')
        q = m[nl['layer']][1]; c.post(TRUE if isinstance(q, Ptr) and q.base is sa.reg and q.off is IC(0) else FALSE, tag + 'layer array unchanged')
        r = fresh('r', I); s = c.st.fork(); s.assume(and_(ge(r, IC(0)), lt(r, n))); loops.instantiate(s, r)
        code = act0.at(r); s.assume(ge(code, IC(1)))
        c.post_eq(s.mem[sa.f['activation_func']].at(r), code, tag + 'activations unchanged', s)
        got = s.mem[sa.f['activation_derivative']].at(r)
        if nm is None: c.post_eq(got, der0.at(r), tag + 'nothing else changes', s)
        else:
            want = code         # both are numbered alike: the derivative of activation k has number k
            if losses[nm] in SIMPLE: want = ite(and_(eq(r, sub(n, IC(1))), eq(code, IC(1 + ACTS.index(SIMPLE[losses[nm]])))), IC(1 + ACTS.index('linear')), code)
            c.post_eq(got, want, tag + 'each layer has the derivative of its activation' + (', except that of the output layer, which the loss contains' if losses[nm] in SIMPLE else ''), s)
        c.satisfiable(); out.append(c)
    return out
