"""Contracts of the activation functions and their derivatives (src/activation.c): C05, C03."""
from harness import *
SRC = ['src/activation.c']
P = {'C05': None, 'C03': SAFETY}
one, zero = RC(1), RC(0)
def EXP(x): return mkapp('exp', R, x)
def LOG(x): return mkapp('log', R, x)
def TANH(x): return mkapp('tanh', R, x)
def q(s): return RC(Fraction(s))
def f32(x):
    import struct
    return RC(Fraction(struct.unpack('<f', struct.pack('<f', x))[0]))

def exp256(ex, f, it, st, args):
    """contract of exp256_ps: every lane is exp of the argument lane (within 1.2e-7, see c_exp.py)"""
    if it.res is not None: st.env[it.res] = tuple(EXP(x) for x in args[0])
    return st
CONTRACTS = {'exp256_ps': exp256}

ACT = {
    'linear': lambda x: x,
    'relu': lambda x: rmax(zero, x),
    'sigmoid': lambda x: one / (one + EXP(-x)),
    'tanh': lambda x: TANH(x),
    'softplus': lambda x: LOG(one + EXP(x)),
    'softsign': lambda x: x / (one + rabs(x)),
    'hard_sigmoid': lambda x: ite(lt(x, q('-5/2')), zero, ite(gt(x, q('5/2')), one, f32(0.2) * x + q('1/2'))),
    'exponential': lambda x: EXP(x),
}
# derivative expressed through the activation value a
DER = {
    'linear': lambda a: one,
    'softmax': lambda a: one,        # combined with the cross-entropy loss (documented simplification)
    'relu': lambda a: ite(le(a, zero), zero, one),
    'sigmoid': lambda a: a * (one - a),
    'tanh': lambda a: one - a * a,
    'softplus': lambda a: one - one / EXP(a),
    'softsign': lambda a: (one - rabs(a)) * (one - rabs(a)),
    'hard_sigmoid': lambda a: ite(le(a, zero), zero, ite(ge(a, one), zero, f32(0.2))),
    'exponential': lambda a: a,
}
# admissible activation values (range of the activation)
RANGE = {'softplus': lambda a: gt(a, zero), 'softsign': lambda a: and_(gt(a, -1 * one), lt(a, one))}
NAMES = list(ACT) + ['softmax']

def resolve(c, getter, name):
    r = cstr.litregion(c.ex, c.st, name)
    p = c.call(getter, r)
    if not isinstance(p, Ptr) or not isinstance(p.base, Fn):
        c.post(FALSE, '%s("%s") is a function' % (getter, name)); raise Unsupported('%s("%s") does not resolve to one function: %s' % (getter, name, p))
    return p.base

@contract('activation', P, ISA4, functions=['get_activation_func'] + NAMES)
def activation(cfg):
    out = []
    for nm in NAMES:
        c = Ctx(cfg, SRC, CONTRACTS)
        fn = resolve(c, 'get_activation_func', nm)
        n = c.int('n', 1 if nm == 'softmax' else 0)
        y = c.array('y', n, 4)
        c.call(fn, n, y)
        Y = lambda r: app('y', R, r)
        if nm == 'softmax':
            qv = fresh('q', I)
            M = mfold('max', Y(IC(0)), IC(1), n, qv, Y(qv))
            S = msum(IC(0), n, qv, EXP(Y(qv) - M))
            c.post_elem(y, n, lambda r: EXP(Y(r) - M) / S, 'softmax')
        else:
            c.post_elem(y, n, lambda r: ACT[nm](Y(r)), nm)
        c.satisfiable()
        out.append(c)
    return out

@contract('activation_derivative', P, ISA4, functions=['get_activation_derivative'] + [x + '_derivative' for x in NAMES])
def derivative(cfg):
    out = []
    for nm in NAMES:
        c = Ctx(cfg, SRC, CONTRACTS)
        fn = resolve(c, 'get_activation_func', nm)
        p = c.call('get_activation_derivative', Ptr(fn, IC(0)))
        if not isinstance(p, Ptr) or not isinstance(p.base, Fn):
            c.post(FALSE, 'derivative of %s exists' % nm); out.append(c); continue
        n = c.int('n')
        a = c.array('a', n, 4, False); g = c.array('g', n, 4)
        if nm in RANGE: c.ex.elemfacts = {'a': RANGE[nm]}
        c.call(p.base, n, a, g)
        def want(r):
            return app('g', R, r) * DER[nm](app('a', R, r))
        r = fresh('r', I); s = c.st.fork(); s.assume(ge(r, IC(0))); s.assume(lt(r, n))
        if nm in RANGE: s.assume(RANGE[nm](app('a', R, r)))
        c.post_eq(s.mem[g].at(r), want(r), nm + '_derivative', s)
        c.satisfiable()
        out.append(c)
    return out
