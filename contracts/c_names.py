"""Contracts of the name registries: C08."""
from harness import *
from c_activation import resolve, NAMES, CONTRACTS
import c_loss
TABLES = {
    'activation': dict(src=['src/activation.c'], get='get_activation_func', name='get_activation_name', names=NAMES, alias={}),
    'loss': dict(src=['src/loss.c'], get='get_loss_func', name='get_loss_name', names=list(c_loss.LG), alias=c_loss.ALIAS),
    'metric': dict(src=['src/metrics.c'], get='get_metric_func', name='get_metric_name', names=list(c_loss.TERM) + ['categorical_accuracy'], alias=c_loss.MALIAS),
}
def dynamic(ex, f, it, st, args):
    """get_activation_func_dynamic: NULL for a name without '@' (proved by task dynamic_name), else some loaded symbol"""
    p = args[0]
    lit = cstr.conc(p)
    if lit is not None and b'@' not in lit: r = NULL
    else:
        has = var('has@', B)
        r = vite(has, Ptr(Fn.get('dynamic!', None), IC(0)), NULL)
    if it.res is not None: st.env[it.res] = r
    return st

def tables(cfg, which):
    T = TABLES[which]
    CT = {'get_activation_func_dynamic': dynamic}
    ctxs = []
    c0 = Ctx(cfg, T['src'], CT); ctxs.append(c0)
    fns = {}
    for nm in T['names'] + list(T['alias']):
        c = c0
        p = c.call(T['get'], cstr.litregion(c.ex, c.st, nm))
        ok = isinstance(p, Ptr) and isinstance(p.base, Fn) and p.base.name != 'dynamic!'
        c.post(TRUE if ok else FALSE, '%s("%s") yields a built-in function' % (T['get'], nm))
        if ok: fns[nm] = p.base
    # name -> function -> name -> function
    for nm, fn in fns.items():
        c = c0
        q = c.call(T['name'], Ptr(fn, IC(0)))
        back = cstr.conc(q) if isinstance(q, Ptr) else None
        want = T['alias'].get(nm, nm).encode()
        c.post(TRUE if back == want else FALSE, '%s(%s("%s")) == "%s"' % (T['name'], T['get'], nm, want.decode()))
    for i, a in enumerate(T['names']):
        for b in T['names'][:i]:
            if a in fns and b in fns: c0.post(TRUE if fns[a] is not fns[b] else FALSE, '"%s" and "%s" are different functions' % (a, b))
    for a, b in T['alias'].items():
        if a in fns and b in fns: c0.post(TRUE if fns[a] is fns[b] else FALSE, '"%s" is "%s"' % (a, b))
    if which == 'activation':
        seen = {}
        for nm in T['names']:
            if nm not in fns: continue
            p = c0.call('get_activation_derivative', Ptr(fns[nm], IC(0)))
            ok = isinstance(p, Ptr) and isinstance(p.base, Fn)
            c0.post(TRUE if ok and p.base not in seen else FALSE, 'own derivative for "%s"' % nm)
            if ok: seen[p.base] = nm
    # every other string
    c = Ctx(cfg, T['src'], CT); ctxs.append(c)
    s = cstr.symregion(c.ex, c.st, 'name')
    for nm in T['names'] + list(T['alias']): c.assume(not_(cstr.eqlit(c.st, 'name', nm.encode())))
    c.assume(not_(var('has@', B)))
    p = c.call(T['get'], s)
    good = [and_(*[cc]) for cc, q in alts(p) if q.base is None and q.off is IC(0)]
    c.post(or_(*good) if good else FALSE, 'a name outside the table yields no function')
    c.satisfiable()
    # a foreign function
    c = Ctx(cfg, T['src'], CT); ctxs.append(c)
    r = c.modules[0]
    if which != 'activation':
        q = c.call(T['name'], Ptr(Fn.get('foreign_function', None), IC(0)))
        back = cstr.conc(q) if isinstance(q, Ptr) else None
        c.post(TRUE if back is not None and back.decode() not in T['names'] + list(T['alias']) else FALSE, 'a foreign function has no registered name')
    return ctxs

for w in TABLES:
    contract('names_' + w, ['C08'] + (['C11'] if w == 'activation' else []), ['nosimd', 'avx512'], functions=[TABLES[w]['get'], TABLES[w]['name']] + (['get_activation_derivative'] if w == 'activation' else []))(
        (lambda w: lambda cfg: tables(cfg, w))(w))
