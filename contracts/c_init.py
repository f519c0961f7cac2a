"""Initial parameters (C18): the random number functions, and neuralnet_initialize for a network of
any depth and any layer sizes, every outcome of rand()."""
from harness import *
import steps, heap, intrinsics
from nets import BigNet

SRC = ['src/neuralnet.c']
RM = RC(2 ** 31)
def U(r): return sub(rdiv(mul(RC(2), toR(r)), RM), RC(1))

class Rand:
    """rand(): every call may return any value in 0..RAND_MAX; the last values are kept in ghost state"""
    def __init__(self, c, keep=4):
        self.c, self.keep = c, keep
        self.reg = Region('ghost_rand', 'cells', IC(8 * (keep + 1)), align=16); self.reset(c.st)
        c.ex.contracts = dict(c.ex.contracts, rand=self.call, random=self.call)
    def fresh(self, st):
        v = fresh('rand', I); RANGES[v] = (Fraction(0), Fraction(2 ** 31 - 1)); st.assume(and_(ge(v, IC(0)), le(v, IC(2 ** 31 - 1)))); return v
    def reset(self, st): st.mem[self.reg] = {8 * i: (8, self.fresh(st) if i else IC(0)) for i in range(self.keep + 1)}
    def call(self, ex, f, it, st, a):
        m = dict(st.mem[self.reg]); v = self.fresh(st)
        for i in range(self.keep, 1, -1): m[8 * i] = m[8 * (i - 1)]
        m[8] = (8, v); m[0] = (8, add(m[0][1], IC(1)))
        st.mem[self.reg] = m
        if it.res is not None: st.env[it.res] = v
        return st
    def last(self, st, i): return st.mem[self.reg][8 * i][1]
    def count(self, st): return st.mem[self.reg][0][1]

@contract('random_uniform', {'C18': None}, ['nosimd'])
def uniform(cfg):
    c = Ctx(cfg, SRC); rnd = Rand(c)
    rv = c.call('random_uniform')
    c.post_eq(rnd.count(c.st), IC(1), 'one number is drawn')
    c.post_eq(rv, U(rnd.last(c.st, 1)), 'uniform between -1 and 1')
    c.post(and_(ge(rv, RC(-1)), le(rv, RC(1))), 'between -1 and 1')
    c.satisfiable(); return c

@contract('random_normal', {'C18': None}, ['nosimd'])
def normal(cfg):
    """Two calls from an arbitrary reachable state: every static location the calls change is arbitrary at
    the start, all others have their initial value and have it again afterwards, so by induction the
    argument covers any number of calls."""
    out = []
    changed = set()
    for attempt in range(3):
        c = Ctx(cfg, SRC); rnd = Rand(c); ex = c.ex
        def hook(ex, f, L, phis, init, s0, rets):
            hk = steps.StepLoop(['rand', 'random'], {rnd.reg}, lambda ex, st: rnd.reset(st), lambda *a: None, lambda *a: None)
            return hk(ex, f, L, phis, init, s0, rets)
        ex.loop_hooks = [hook]
        f, m = c.f('random_normal')
        stat = [g for g in m.globals if m.globals[g]['internal'] and not m.globals[g]['const'] and not m.globals[g]['ext']]
        ex.curmod = m
        for g in stat: ex.globinit[g] = 'init'
        def snap(st): return {(g, o): e for g in stat for o, e in (st.mem.get(ex.globalregion(st, g, m)) or {}).items() if isinstance(st.mem.get(ex.globalregion(st, g, m)), dict)}
        s0 = snap(c.st)
        for g, o in changed:
            r = ex.globalregion(c.st, g, m); cc = dict(c.st.mem[r]); sz, v = cc[o] if o in cc else (4, RC(0))
            cc[o] = (sz, var('before_%s_%d' % (g, o), v.sort)); c.st.mem[r] = cc
        before = snap(c.st)
        zs = []
        for i in range(2):
            n0 = rnd.count(c.st)
            z = c.call('random_normal')
            zs.append((z, [rnd.last(c.st, j) for j in range(1, rnd.keep + 1)]))
            if i == 0: mid = snap(c.st)
        after = snap(c.st)
        new = {k for k in set(after) | set(mid) for x in (after, mid) if k not in before or k not in x or not veq(before[k][1], x[k][1])}
        # locations that come back to their value (the toggle) are not havocked
        new = {k for k in new if k not in before or k not in after or not prove_eq(before[k][1], after[k][1], c.st.facts())}
        if new <= changed: break
        changed |= new
    else: raise Unsupported('static state of random_normal does not stabilise')
    for k in set(before) - changed:
        if k in after: c.post_eq(after[k][1], before[k][1], 'static state returns after two calls (%s)' % k[0])
    last = zs[1][1]
    a, b = last[0], last[1]
    S = add(mul(U(a), U(a)), mul(U(b), U(b)))
    fac = mkapp('sqrt', R, rdiv(mul(RC(-2), mkapp('log', R, S)), S))
    c.post(and_(gt(S, RC(0)), lt(S, RC(1))), 'the pair lies strictly inside the unit circle and is not the origin, so the result is finite')
    w1, w2 = mul(U(b), fac), mul(U(a), fac)
    z1, z2 = zs[0][0], zs[1][0]
    if not prove_eq(z1, w1, c.st.facts()): w1, w2 = w2, w1
    c.post_eq(z1, w1, 'first normal value of the pair (polar method)')
    c.post_eq(z2, w2, 'second normal value of the pair (polar method)')
    c.satisfiable()
    return c

@contract('neuralnet_initialize', {'C18': None, 'C03': SAFETY}, ['nosimd', 'avx512'], functions=['neuralnet_initialize', 'fill_data'])
def initialize(cfg):
    out = []
    for given in (True, False):
        c = Ctx(cfg, SRC); ex = c.ex
        net = BigNet(c); k = var('k_layer', I); RANGES[k] = (Fraction(0), Fraction(INT_MAX))
        c.assume(ge(k, IC(0)))
        ni, no = net.field(ex, c.st, 'n_input', k), net.field(ex, c.st, 'n_output', k)
        RANGES[ni] = RANGES[no] = (Fraction(1), Fraction(INT_MAX))
        c.assume(le(mul(ni, no), IC(INT_MAX)), le(add(ni, no), IC(INT_MAX)), ge(mul(ni, no), IC(1)))
        net.layers.writable = False
        W = c.array('W', mul(ni, no), c.align); Bi = c.array('bias', no, c.align)
        net.params = dict(weight=(k, W), bias=(k, Bi))
        rng = Region('ghost_draws', 'cells', IC(8), align=16); c.st.mem[rng] = {0: (8, c.int('draws0', 0, 2 ** 40))}
        def draw(kind):
            def f(ex, f, it, st, a):
                n = st.mem[rng][0][1]; v = app(kind, R, n)
                st.mem[rng] = {0: (8, add(n, IC(1)))}
                if it.res is not None: st.env[it.res] = v
                return st
            return f
        an = cstr.symregion(ex, c.st, 'activation_name'); an.writable = False
        def actname(ex, f, it, st, a):
            p = a[0]; ok = isinstance(p, Ptr) and isinstance(p.base, Fn) and p.base.name == 'layer_activation'
            ex.oblige(st, it.line, 'call', eq(p.off, k) if ok else FALSE, 'name of the activation of the layer at hand')
            st.env[it.res] = Ptr(an, 0); return st
        ini = cstr.symregion(ex, c.st, 'initializer'); ini.writable = False
        lst = Region('initializers', 'cells', tm.scale(net.L, 8), writable=False, align=16); lst.es = 8; lst.stepped = True; c.st.mem[lst] = {}
        class H:
            def load(self, ex, st, ty, p, line):
                i = ex.elemidx(p.off, 8)
                if i is None: raise Unsupported('access to the initializers')
                ex.oblige(st, line, 'bounds', eq(i, k), 'initializer of the layer at hand'); return Ptr(ini, 0)
            def store(self, ex, st, ty, v, p, line): pass
        lst.handler = H()
        ex.contracts = dict(random_uniform=draw('U'), random_normal=draw('Z'), get_activation_name=actname)
        xa = lambda s: cstr.eqlit(c.st, 'initializer', s.encode())
        ac = lambda s: cstr.eqlit(c.st, 'activation_name', s.encode())
        X = or_(*[ac(s) for s in ('sigmoid', 'tanh', 'softmax', 'hard_sigmoid', 'softsign')]); K = or_(*[ac(s) for s in ('relu', 'softplus')])
        if given:
            isx, isk = xa('xavier'), xa('kaiming')
            X, K = or_(isx, and_(not_(isk), X)), and_(not_(isx), or_(isk, and_(not_(X), K)))
        c.k = k
        def havoc(ex, st):
            st.assume(and_(ge(k, IC(0)), le(k, net.L)))
            for r in (W, Bi):
                v = fresh('r', I); st.mem[r] = Arr(v, app(r.name, R, v))
            d = var('draws', I); RANGES[d] = (Fraction(0), Fraction(2 ** 62)); st.assume(ge(d, IC(0))); st.mem[rng] = {0: (8, d)}; c.d = d
        def entry(ex, st, line):
            for r in (W, Bi):
                x = fresh('r', I); ex.oblige_eq(st, line, 'loop', st.mem[r].at(x), app(r.name, R, x), 'nothing is written before the loop over the layers')
        def step(ex, st, line):
            sx = mkapp('sqrt', R, rdiv(RC(6), toR(add(ni, no)))); sk = mkapp('sqrt', R, rdiv(RC(2), toR(ni)))
            N = mul(ni, no)
            for what, cond, kind, sc in (('xavier', X, 'U', sx), ('kaiming', and_(not_(X), K), 'Z', sk), ('neither', and_(not_(X), not_(K)), 'Z', RC(1))):
                s = st.fork(); s.assume(cond)
                if infeasible_(s): continue
                r = fresh('r', I); s.assume(and_(ge(r, IC(0)), lt(r, N)))
                got = s.mem[W].at(r)
                want = [mul(app(kind, R, add(c.d, i)), sc) for i in (r, sub(sub(N, IC(1)), r))]
                w = want[1] if not prove_eq(got, want[0], s.facts()) and prove_eq(got, want[1], s.facts()) else want[0]
                ex.oblige_eq(s, line, 'loop', got, w, 'weights of a layer with scheme "%s": one draw each, scaled as the scheme prescribes' % what)
            r = fresh('r', I); s = st.fork(); s.assume(and_(ge(r, IC(0)), lt(r, no)))
            ex.oblige_eq(s, line, 'loop', s.mem[Bi].at(r), RC(0), 'biases are zero')
        hk = steps.StepLoop(['random_uniform', 'random_normal'], {W, Bi, rng}, havoc, entry, step, cands=lambda ex, st: [IC(0)], marks=[net.L])
        def hook(ex, f, L, phis, init, s0, rets):
            if getattr(c, 'inside', False): return None
            if not steps.loop_calls(ex, f, L.blocks, {'get_activation_name'}): return None
            c.inside = True
            class At:
                """position of the loop over the layers: k at the head, k+1 at the latch"""
            head = {'first': True}
            def cands(ex, st): return [st.ghost.get('pos', IC(0))]
            def hv(ex, st): havoc(ex, st); st.ghost['pos'] = k
            def stp(ex, st, line): step(ex, st, line)
            try:
                h2 = steps.StepLoop(['get_activation_name'], {W, Bi, rng}, hv, entry, stp, cands=cands, marks=[net.L])
                h2.latch_ghost = lambda st: st.ghost.__setitem__('pos', add(k, IC(1)))
                return steps.step_loop(h2, ex, f, L, phis, init, s0, rets)
            finally: c.inside = False
        ex.loop_hooks = [hook]
        c.call('neuralnet_initialize', net.nn, Ptr(lst, 0) if given else NULL)
        c.post_eq(k, net.L, 'every layer is initialised')
        c.satisfiable(); out.append(c)
    return out
def infeasible_(s): return solve.infeasible(s.facts())
