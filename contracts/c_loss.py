"""Contracts of the loss gradients (src/loss.c): C06, C03; and metrics (src/metrics.c): C07, C03."""
from harness import *
from c_activation import resolve, f32, one, zero, LOG
LOSS = ['src/loss.c']; METRIC = ['src/metrics.c']
eps = f32(1e-7)
def rdbl(x):
    return RC(Fraction(x))

def near(x): return x

LG = {
    'mean_squared_error': lambda p, t, n: 2 * (p - t) / n,
    'mean_absolute_error': lambda p, t, n: ite(ge(p, t), one, -1 * one) / n,
    'mean_absolute_percentage_error': lambda p, t, n, e=None: ite(ge(p, t), RC(100), RC(-100)) / (rmax(rabs(t), e) * n),
    'categorical_crossentropy': lambda p, t, n: p - t,
    'binary_crossentropy': lambda p, t, n: (p - t) / n,
}
ALIAS = {'mse': 'mean_squared_error', 'mae': 'mean_absolute_error', 'mape': 'mean_absolute_percentage_error'}

@contract('loss_gradient', {'C06': None, 'C03': SAFETY}, ['nosimd', 'avx512'], functions=['get_loss_func'] + list(LG))
def loss(cfg):
    out = []
    for nm in list(LG) + list(ALIAS):
        c = Ctx(cfg, LOSS)
        fn = resolve(c, 'get_loss_func', nm)
        base = ALIAS.get(nm, nm)
        n = c.int('n', 0)
        p = c.array('p', n, 4, False); t = c.array('t', n, 4, False); l = c.array('l', n, 4)
        c.call(fn, n, p, t, l)
        kw = {'e': EPSLOSS} if base == 'mean_absolute_percentage_error' else {}
        c.post_elem(l, n, lambda r: LG[base](app('p', R, r), app('t', R, r), toR(n), **kw), base)
        c.satisfiable()
        out.append(c)
    return out
EPSLOSS = f32(1e-7)

def clip(x): return rmin(rmax(x, eps), one - eps)
def clip32(x): return rmin(rmax(x, eps), f32(1.0 - float(1e-7)))
def rnd(x): return toR(mkapp('round', I, x))
TERM = {
    'mean_squared_error': lambda p, t: (p - t) * (p - t),
    'mean_absolute_error': lambda p, t: rabs(p - t),
    'mean_absolute_percentage_error': lambda p, t: RC(100) * rabs(t - p) / rmax(rabs(t), eps),
    'binary_crossentropy': lambda p, t: RC(-1) * (t * LOG(clip(p)) + (one - t) * LOG(one - clip(p))),
    'categorical_crossentropy': lambda p, t: RC(-1) * t * LOG(clip(p)),
    'binary_accuracy': lambda p, t: ite(eq(rnd(p), rnd(rmin(rmax(t, zero), one))), one, zero),
}
MALIAS = dict(ALIAS)

def argfirst(name, n):
    """index of the first maximum: the last q with a[q] greater than everything before it, else 0"""
    q, w = fresh('q', I), fresh('w', I)
    A = lambda i: app(name, R, i)
    m = mfold('max', A(IC(0)), IC(0), q, w, A(w + 1))
    return mfold('last', IC(0), IC(0), n - 1, q, ite(gt(A(q + 1), m), q + 1, loops.none_of(I)))

@contract('metric', {'C07': None, 'C03': SAFETY}, ['nosimd', 'avx512'], functions=['get_metric_func', 'categorical_accuracy'] + list(TERM))
def metric(cfg):
    out = []
    for nm in list(TERM) + list(MALIAS) + ['categorical_accuracy']:
        c = Ctx(cfg, METRIC)
        fn = resolve(c, 'get_metric_func', nm)
        base = MALIAS.get(nm, nm)
        n = c.int('n', 1, 2 ** 20)       # VLA of n floats on the stack
        p = c.array('p', n, 4, False); t = c.array('t', n, 4, False)
        rv = c.call(fn, n, p, t)
        if base == 'categorical_accuracy':
            c.post_eq(rv, ite(eq(argfirst('p', n), argfirst('t', n)), one, zero), base)
        else:
            q = fresh('q', I)
            c.post_eq(rv, msum(IC(0), n, q, TERM[base](app('p', R, q), app('t', R, q))) / toR(n), base)
        c.satisfiable()
        out.append(c)
    return out
