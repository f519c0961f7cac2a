"""Contracts of the optimizers: batch gradients, update rules, epochs, construction."""
from harness import *
from nets import _ptrs, _rd, _wr, _sep, _content, _update, _alignreq, KERNELS
import nets, steps
from layout import layout

UINT = 2 ** 32
PARAM_MAX = INT_MAX // 4 - 64
OPT = ['run_epoch', 'free', 'nn', 'shuffle', 'batchsize', 'progress', 'metrics', 'pivot']
def olayout(src, typ, fields, cfg):
    L = layout(src, typ, ['opt.' + f for f in OPT] + fields, cfg)
    return L

class GhostNet:
    """a network seen only through its contracts: P parameters, values theta (ghost)"""
    def __init__(self, c):
        self.c = c
        self.P = c.int('P', 1, PARAM_MAX)
        self.nn = Region('nn', 'cells', IC(4096), writable=False, align=16); c.st.mem[self.nn] = {}
        self.theta = c.array('theta', self.P, 4)
    def is_net(self, ex, it, st, p, what):
        ok = isinstance(p, Ptr) and p.base is self.nn and p.off is IC(0)
        ex.oblige(st, it.line, 'call', TRUE if ok else FALSE, what + ' is given the network of the optimizer')
    def contracts(self):
        def total(ex, f, it, st, a):
            self.is_net(ex, it, st, a[0], 'neuralnet_total_n_parameters')
            if it.res is not None: st.env[it.res] = self.P
            return st
        def update(ex, f, it, st, a):
            nn, d = a; _ptrs(ex, it, st, nn, d); self.is_net(ex, it, st, nn, 'neuralnet_update')
            _rd(ex, it, st, d, self.P, 'neuralnet_update delta')
            cd = _content(ex, st, d); r = self.theta; cur = st.mem[r]
            v = cur.v; st.mem[r] = Arr(v, ite(window(v, IC(0), self.P), add(cur.body, cd(v)), cur.body))
            return st
        def get(ex, f, it, st, a):
            nn, d = a; _ptrs(ex, it, st, nn, d); self.is_net(ex, it, st, nn, 'neuralnet_get_parameters')
            _wr(ex, it, st, d, self.P, 'neuralnet_get_parameters result')
            cur = st.mem[self.theta]
            _update(ex, st, d, self.P, lambda r: cur.at(r))
            return st
        return {'neuralnet_total_n_parameters': total, 'neuralnet_update': update, 'neuralnet_get_parameters': get}

def window(v, lo, hi): return and_(ge(v, lo), lt(v, hi))

class Epoch:
    """one optimizer's run_epoch: arbitrary state at the loop head, one step checked against the rule"""
    def __init__(self, c, src, typ, scalars, uints, bools, arrays, runfn):
        self.c, self.cfg = c, c.cfg
        L = olayout(src, typ, scalars + uints + bools + arrays, c.cfg); self.L = L
        net = GhostNet(c); self.net = net; P = net.P
        self.n = c.int('n', 1); self.bs = c.int('bs', 1)
        self.X = Region('X', 'cells', IC(1), writable=False); self.Y = Region('Y', 'cells', IC(1), writable=False)
        c.st.mem[self.X] = {}; c.st.mem[self.Y] = {}
        o = Region('opt', 'cells', IC(L['sizeof']), align=16); self.o = o
        cells = {}
        self.s = {}
        def put(f, sz, v): cells[L[f]] = (sz, v); self.s[f] = v
        put('opt.nn', 8, Ptr(net.nn, 0)); put('opt.shuffle', 1, c.int('shuffle', 0, 1)); put('opt.batchsize', 4, self.bs)
        put('opt.run_epoch', 8, Ptr(Fn.get('run_epoch_fn'), 0)); put('opt.free', 8, Ptr(Fn.get('free_fn'), 0))
        self.pivot = Region('pivotmem', 'cells', IC(1)); c.st.mem[self.pivot] = {}
        put('opt.pivot', 8, Ptr(self.pivot, 0)); self.mets = Region('metricsmem', 'cells', IC(1)); c.st.mem[self.mets] = {}
        put('opt.metrics', 8, Ptr(self.mets, 0))
        self.hasprog = var('has_progress', B)
        put('opt.progress', 8, PIte([(self.hasprog, Ptr(Fn.get('progress_fn'), 0)), (TRUE, NULL)]))
        for f in scalars: put(f, 4, c.real(f))
        for f in uints: put(f, 4, c.int(f, 0, INT_MAX))
        for f in bools: put(f, 1, c.int(f, 0, 1))
        self.A = {}
        for f in arrays:
            self.A[f] = c.array(f, P, c.align); put(f, 8, Ptr(self.A[f], 0))
        c.st.mem[o] = cells
        self.tracked_cells = []       # filled by the rule
        c.st.ghost['pos'] = IC(0); c.st.ghost['batches'] = IC(0)
        c.ex.contracts = dict(KERNELS); c.ex.contracts.update(net.contracts())
        c.ex.contracts['optimizer_calc_batch_gradient'] = self.calc
        c.ex.contracts['progress_fn'] = lambda ex, f, it, st, a: st
    def grad(self, r): return app('G', R, r)
    def calc(self, ex, f, it, st, a):
        opt, n, X, Y, ip, g = a; _ptrs(ex, it, st, opt, X, Y, ip, g)
        W = 'optimizer_calc_batch_gradient'
        ex.oblige(st, it.line, 'call', TRUE if opt.base is self.o and opt.off is IC(0) else FALSE, W + ' is given this optimizer')
        ex.oblige_eq(st, it.line, 'call', n, self.n, W + ': number of samples')
        ex.oblige(st, it.line, 'call', TRUE if X.base is self.X and Y.base is self.Y and X.off is IC(0) and Y.off is IC(0) else FALSE, W + ' is given the data set')
        i = ex.rawload(st, ('int', 32), ip, it.line)
        ex.oblige_eq(st, it.line, 'call', i, st.ghost['pos'], W + ': batches take consecutive samples')
        ex.oblige(st, it.line, 'call', lt(st.ghost['pos'], self.n), W + ': batch is not empty')
        ex.oblige_eq(st, it.line, 'call', st.ghost['batches'], IC(0), W + ': one batch per step')
        _wr(ex, it, st, g, self.net.P, W + ' gradient'); _alignreq(ex, it, st, g, W)
        r = fresh('r', I); s = st.fork(); s.assume(window(r, IC(0), self.net.P))
        ex.oblige_eq(s, it.line, 'call', st.mem[self.net.theta].at(r), self.theta_g(r), 'the gradient is taken at the parameters the rule prescribes')
        _update(ex, st, g, self.net.P, lambda r: self.grad(r))
        rest = sub(self.n, st.ghost['pos'])
        new = add(st.ghost['pos'], ite(lt(rest, self.bs), rest, self.bs))
        ex.store(st, ('int', 32), new, ip, 1, it.line)
        st.ghost['pos'] = new; st.ghost['batches'] = add(st.ghost['batches'], IC(1))
        return st
    # ---- step specification
    def rule(self, theta, cells, arrays, theta_g=None):
        """theta(r) after the step; cells: field -> term after; arrays: field -> (r -> term after)"""
        self.r_theta, self.r_cells, self.r_arrays = theta, cells, arrays
        self.theta_g = theta_g or (lambda r: app('theta', R, r))
        tracked = {(self.o, self.L[f]) for f in cells} | {self.net.theta} | {self.A[f] for f in arrays}
        def havoc(ex, st):
            m = dict(st.mem[self.o])
            for f in cells: m[self.L[f]] = (4, self.s[f])
            st.mem[self.o] = m
            for f in arrays: v = fresh('r', I); st.mem[self.A[f]] = Arr(v, app(f, R, v))
            v = fresh('r', I); st.mem[self.net.theta] = Arr(v, app('theta', R, v))
            p = var('pos', I); RANGES[p] = (Fraction(0), Fraction(INT_MAX))
            st.ghost['pos'] = p; st.ghost['batches'] = IC(0)
            st.assume(and_(ge(p, IC(0)), le(p, self.n)))
        def entry(ex, st, line):
            for f in cells: ex.oblige_eq(st, line, 'loop', st.mem[self.o][self.L[f]][1], self.s[f], 'before the first batch: %s' % f)
            for f in list(arrays): self.eqarr(ex, st, self.A[f], lambda r, f=f: app(f, R, r), 'before the first batch: %s' % f, line)
            self.eqarr(ex, st, self.net.theta, lambda r: app('theta', R, r), 'before the first batch: parameters', line)
        def step(ex, st, line):
            ex.oblige_eq(st, line, 'loop', st.ghost['batches'], IC(1), 'every iteration handles exactly one batch')
            ex.oblige(st, line, 'loop', and_(gt(st.ghost['pos'], IC(0)), le(st.ghost['pos'], self.n)), 'position stays inside the data set')
            self.after(ex, st, line, 'step')
        self.hook = steps.StepLoop(['optimizer_calc_batch_gradient'], tracked, havoc, entry, step, lambda ex, st: [st.ghost['pos']])
        self.c.ex.loop_hooks = [self.hook]
    def eqarr(self, ex, st, reg, want, desc, line):
        r = fresh('r', I); s = st.fork(); s.assume(window(r, IC(0), self.net.P))
        ex.oblige_eq(s, line, 'loop', st.mem[reg].at(r), want(r), desc)
    def after(self, ex, st, line, what):
        b = eq(st.ghost['batches'], IC(1))
        for f, t in self.r_cells.items():
            ex.oblige_eq(st, line, 'loop', st.mem[self.o][self.L[f]][1], ite(b, t, self.s[f]), '%s: %s' % (what, f))
        for f, t in self.r_arrays.items():
            self.eqarr(ex, st, self.A[f], lambda r: ite(b, t(r), app(f, R, r)), '%s: %s' % (what, f), line)
        self.eqarr(ex, st, self.net.theta, lambda r: ite(b, self.r_theta(r), app('theta', R, r)), '%s: parameters' % what, line)
        keep = [f for f in self.s if f not in self.r_cells]
        for f in keep:
            v = st.mem[self.o].get(self.L[f], (0, None))[1]
            ok = v is not None and (veq(v, self.s[f]) or (isinstance(v, T) and prove_eq(v, self.s[f], st.facts())))
            ex.oblige(st, line, 'loop', TRUE if ok else FALSE, '%s: %s is unchanged' % (what, f))
    def run(self, fn):
        c = self.c
        fld = self.L['opt.run_epoch']
        c.call(fn, self.o, self.n, self.X, self.Y)
        if not self.hook.hits: raise Unsupported('no batch loop found')
        c._oblige(lambda: c.ex.oblige_eq(c.st, 0, 'post', c.st.ghost['pos'], self.n, 'every sample belongs to a batch'))
        c._oblige(lambda: self.after(c.ex, c.st, 0, 'at return'))
        c.satisfiable()
        return c

def sqrt(x): return app('sqrt', R, x)
def lr_next(s): return ite(gt(s['decay'], RC(0)), rdiv(s['learning_rate'], add(RC(1), mul(s['decay'], toR(s['n_iterations'])))), s['learning_rate'])
C12 = {'C12': None, 'C13': ('call', 'loop', 'post'), 'C03': SAFETY}

def wfresh(f): return lambda r: app(f, R, r)
@contract('SGD_run_epoch', C12, ISA4)
def sgd(cfg):
    c = Ctx(cfg, ['src/SGD.c'])
    e = Epoch(c, 'SGD.c', 'SGD_t', ['learning_rate', 'decay', 'momentum'], ['n_iterations'], ['nesterov'], ['velocity'], 'SGD_run_epoch')
    s = e.s; V, th, G = wfresh('velocity'), wfresh('theta'), e.grad
    c.assume(ge(s['decay'], RC(0)), lt(s['n_iterations'], IC(INT_MAX)))
    mom = gt(s['momentum'], RC(0)); lr = lr_next(s)
    v1 = lambda r: sub(mul(s['momentum'], V(r)), mul(lr, G(r)))
    e.rule(lambda r: ite(mom, add(th(r), v1(r)), sub(th(r), mul(lr, G(r)))),
           {'learning_rate': lr, 'n_iterations': add(s['n_iterations'], IC(1))},
           {'velocity': lambda r: ite(mom, v1(r), V(r))},
           lambda r: ite(and_(mom, ne(s['nesterov'], IC(0))), add(th(r), mul(s['momentum'], V(r))), th(r)))
    return e.run('SGD_run_epoch')

import struct
def f32(x): return RC(Fraction(struct.unpack('f', struct.pack('f', x))[0]))
def sqrt_(x): return tm.mkapp('sqrt', R, x)

@contract('RMSprop_run_epoch', C12, ISA4)
def rmsprop(cfg):
    c = Ctx(cfg, ['src/RMSprop.c'])
    e = Epoch(c, 'RMSprop.c', 'RMSprop_t', ['learning_rate', 'decay', 'rho', 'momentum'], ['n_iterations'], ['nesterov'], ['velocity', 'r'], 'RMSprop_run_epoch')
    s = e.s; V, A, th, G = wfresh('velocity'), wfresh('r'), wfresh('theta'), e.grad
    c.assume(ge(s['decay'], RC(0)), lt(s['n_iterations'], IC(INT_MAX)))
    mom = gt(s['momentum'], RC(0)); lr = lr_next(s); rho = s['rho']
    a1 = lambda r: add(mul(rho, A(r)), mul(sub(RC(1), rho), mul(G(r), G(r))))
    d = lambda r: neg(rdiv(mul(lr, G(r)), add(f32(1e-7), sqrt_(a1(r)))))
    v1 = lambda r: add(mul(s['momentum'], V(r)), d(r))
    e.rule(lambda r: ite(mom, add(th(r), v1(r)), add(th(r), d(r))),
           {'learning_rate': lr, 'n_iterations': add(s['n_iterations'], IC(1))},
           {'velocity': lambda r: ite(mom, v1(r), V(r)), 'r': a1},
           lambda r: ite(and_(mom, ne(s['nesterov'], IC(0))), add(th(r), mul(s['momentum'], V(r))), th(r)))
    return e.run('RMSprop_run_epoch')

@contract('adagrad_run_epoch', C12, ISA4)
def adagrad(cfg):
    c = Ctx(cfg, ['src/adagrad.c'])
    e = Epoch(c, 'adagrad.c', 'adagrad_t', ['learning_rate', 'decay'], ['n_iterations'], [], ['r'], 'adagrad_run_epoch')
    s = e.s; A, th, G = wfresh('r'), wfresh('theta'), e.grad
    c.assume(ge(s['decay'], RC(0)), lt(s['n_iterations'], IC(INT_MAX)))
    lr = lr_next(s)
    a1 = lambda r: add(A(r), mul(G(r), G(r)))
    e.rule(lambda r: sub(th(r), rdiv(mul(lr, G(r)), add(f32(1e-7), sqrt_(a1(r))))),
           {'learning_rate': lr, 'n_iterations': add(s['n_iterations'], IC(1))}, {'r': a1})
    return e.run('adagrad_run_epoch')

@contract('adam_run_epoch', C12, ISA4)
def adam(cfg):
    c = Ctx(cfg, ['src/adam.c'])
    e = Epoch(c, 'adam.c', 'adam_t', ['learning_rate', 'beta_1', 'beta_2', 'weight_decay', 'beta_1_corrected', 'beta_2_corrected'], [], [], ['r', 's'], 'adam_run_epoch')
    s = e.s; A, M, th, G = wfresh('r'), wfresh('s'), wfresh('theta'), e.grad
    b1, b2 = s['beta_1'], s['beta_2']
    p1, p2 = mul(s['beta_1_corrected'], b1), mul(s['beta_2_corrected'], b2)
    m1 = lambda r: add(mul(b1, M(r)), mul(sub(RC(1), b1), G(r)))
    a1 = lambda r: add(mul(b2, A(r)), mul(sub(RC(1), b2), mul(G(r), G(r))))
    wd = s['weight_decay']
    d = lambda r: neg(rdiv(mul(s['learning_rate'], rdiv(m1(r), sub(RC(1), p1))), add(sqrt_(rdiv(a1(r), sub(RC(1), p2))), f32(1e-8))))
    e.rule(lambda r: ite(gt(wd, RC(0)), sub(add(th(r), d(r)), mul(wd, th(r))), add(th(r), d(r))),
           {'beta_1_corrected': p1, 'beta_2_corrected': p2}, {'r': a1, 's': m1})
    return e.run('adam_run_epoch')

# ------------------------------------------------------------------ construction and release
KIND = {   # file, type, constructor, property struct, fields copied from it, zero counters, ones, zeroed arrays
    'SGD': ('SGD', 'SGD_t', 'sgd_properties_t', ['learning_rate', 'decay', 'momentum'], ['nesterov'], ['n_iterations'], [], ['velocity']),
    'RMSprop': ('RMSprop', 'RMSprop_t', 'rmsprop_properties_t', ['learning_rate', 'decay', 'momentum', 'rho'], ['nesterov'], ['n_iterations'], [], ['velocity', 'r']),
    'adagrad': ('adagrad', 'adagrad_t', 'adagrad_properties_t', ['learning_rate', 'decay'], [], ['n_iterations'], [], ['r']),
    'adam': ('adam', 'adam_t', 'adam_properties_t', ['learning_rate', 'beta_1', 'beta_2', 'weight_decay'], [], [], ['beta_1_corrected', 'beta_2_corrected'], ['r', 's']),
}
def make(cfg, k):
    src, typ, ptyp, reals, bools, zeros, ones, arrays = KIND[k]
    out = []
    for hasmet in (True, False):
        c = Ctx(cfg, ['src/%s.c' % src, 'src/optimizer.c', INLINES])
        net = GhostNet(c); P = net.P
        nl = layout('neuralnet.h', 'neuralnet_t', ['n_layers', 'layer', 'loss'], cfg)
        lossfn = Fn.get('loss_fn'); c.st.mem[net.nn] = {nl['loss']: (8, Ptr(lossfn, 0))}
        L = olayout(src + '.c', typ, reals + bools + zeros + ones + arrays, cfg)
        pl = layout(src + '.h', ptyp, reals + bools, cfg)
        cl = layout('optimizer.h', 'optimizer_properties_t', ['batchsize', 'shuffle', 'metrics', 'progress'], cfg)
        pr = Region('props', 'cells', IC(pl['sizeof']), writable=False, align=16)
        pc = {pl[f]: (4, c.real(f)) for f in reals}; pc.update({pl[f]: (1, c.int(f, 0, 1)) for f in bools}); c.st.mem[pr] = pc
        mets = Region('metrics', 'cells', IC(8), writable=False); c.st.mem[mets] = {}
        prog = PIte([(var('has_progress', B), Ptr(Fn.get('progress_fn'), 0)), (TRUE, NULL)])
        cf = Region('conf', 'cells', IC(cl['sizeof']), align=8)
        bs, sh = c.int('bs', 1), c.int('shuffle', 0, 1)
        c.st.mem[cf] = {cl['batchsize']: (4, bs), cl['shuffle']: (1, sh), cl['metrics']: (8, Ptr(mets, 0) if hasmet else NULL), cl['progress']: (8, prog)}
        lname = cstr.litregion(c.ex, c.st, 'name_of_loss', 'lname')
        def lossname(ex, f, it, st, a):
            ex.oblige(st, it.line, 'call', TRUE if isinstance(a[0], Ptr) and a[0].base is lossfn else FALSE, "get_loss_name is asked for the network's loss")
            st.env[it.res] = Ptr(lname, 0); return st
        def metfn(ex, f, it, st, a):
            ex.oblige(st, it.line, 'call', TRUE if isinstance(a[0], Ptr) and a[0].base is lname else FALSE, 'get_metric_func is asked for the metric named like the loss')
            st.env[it.res] = Ptr(Fn.get('metric_of_loss'), 0); return st
        c.ex.contracts = dict(net.contracts(), get_loss_name=lossname, get_metric_func=metfn)
        c.ex.heap_may_fail = False
        rv = c.call(k + '_new', net.nn, cf, pr)
        def bad(what): c.post(FALSE, what)
        if not (isinstance(rv, Ptr) and getattr(rv.base, 'heap', None) and rv.off is IC(0)): bad('a new object is returned'); out.append(c); continue
        o = rv.base; m = c.st.mem[o]
        c.post(eq(o.size, IC(L['sizeof'])) if o.size.op == 'const' and int(o.size.args[0]) != L['sizeof'] else TRUE, 'object has the size of its type')
        def cell(f): return m.get(L[f], (0, None))[1]
        for f in reals + bools:
            v = cell(f)
            c.post_eq(v, pc[pl[f]][1], 'setting %s is taken over' % f) if isinstance(v, T) else bad('setting %s' % f)
        for f in zeros: c.post_eq(cell(f), IC(0), '%s starts at 0' % f) if isinstance(cell(f), T) else bad('%s starts at 0' % f)
        for f in ones: c.post_eq(cell(f), RC(1), '%s starts at 1' % f) if isinstance(cell(f), T) else bad('%s starts at 1' % f)
        regs = []
        for f in arrays:
            q = cell(f)
            ok = isinstance(q, Ptr) and getattr(q.base, 'heap', None) and q.off is IC(0) and q.base not in regs
            c.post(TRUE if ok else FALSE, '%s is an own block' % f)
            if not ok: continue
            regs.append(q.base)
            c.post_eq(q.base.size, tm.scale(P, 4), '%s has one number per parameter' % f)
            c.post(TRUE if q.base.align % c.align == 0 else FALSE, '%s is aligned' % f)
            c.post_elem(q.base, P, lambda r: RC(0), '%s starts at 0' % f)
        def isptr_(f, base, off=None):
            q = cell(f); return isinstance(q, Ptr) and q.base is base and (off is None or q.off is off)
        c.post(TRUE if isptr_('opt.nn', net.nn) else FALSE, 'the network is taken over')
        c.post_eq(cell('opt.batchsize'), bs, 'the batch size is taken over'); c.post_eq(cell('opt.shuffle'), sh, 'shuffle is taken over')
        c.post(TRUE if isinstance(cell('opt.progress'), PIte) and veq(cell('opt.progress'), prog) else FALSE, 'the progress function is taken over')
        c.post(TRUE if isptr_('opt.pivot', None, IC(0)) else FALSE, 'no pivot yet')
        c.post(TRUE if isptr_('opt.run_epoch', Fn.get(k + '_run_epoch')) or (isinstance(cell('opt.run_epoch'), Ptr) and isinstance(cell('opt.run_epoch').base, Fn) and cell('opt.run_epoch').base.name == k + '_run_epoch') else FALSE, 'run_epoch is the optimizer\'s own')
        mt = cell('opt.metrics')
        if hasmet: c.post(TRUE if isptr_('opt.metrics', mets, IC(0)) else FALSE, 'the metrics are taken over')
        else:
            ok = isinstance(mt, Ptr) and isinstance(mt.base, Region) and mt.off.op == 'const'
            c.post(TRUE if ok and (mt.base is o or getattr(mt.base, 'heap', None)) else FALSE, 'the default metric list belongs to this optimizer')
            if ok:
                mm = c.st.mem[mt.base]; off = int(mt.off.args[0])
                a, b = mm.get(off, (0, None))[1], mm.get(off + 8, (0, None))[1]
                c.post(TRUE if isinstance(a, Ptr) and a.base is Fn.get('metric_of_loss') else FALSE, 'the default metric is the one named like the loss')
                c.post(TRUE if isinstance(b, Ptr) and b.base is None and b.off is IC(0) else FALSE, 'the default metric list is terminated')
        # release: everything allocated is released exactly once
        piv = Region('pivot', 'cells', IC(64)); piv.heap = 'malloc'; c.st.mem[piv] = {}; c.st.ghost[('a', piv)] = IC(1); c.st.ghost[('f', piv)] = IC(0)
        mm = dict(c.st.mem[o]); haspiv = var('has_pivot', B)
        mm[L['opt.pivot']] = (8, PIte([(haspiv, Ptr(piv, 0)), (TRUE, NULL)])); c.st.mem[o] = mm
        c.call('optimizer_free', o)
        for r in c.ex.heap: c.post_eq(heap.live(c.st, r), IC(0), 'optimizer_free releases the object and everything it owns')
        c.post_eq(c.st.ghost[('f', piv)], ite(haspiv, IC(1), IC(0)), 'optimizer_free releases the pivot exactly when there is one')
        c.satisfiable()
        out.append(c)
    return out
for k in KIND:
    contract(k + '_new', {'C12': None, 'C14': None, 'C03': SAFETY}, ['nosimd', 'avx', 'avx512'], functions=[k + '_new', 'optimizer_check_sanity', 'optimizer_free'])((lambda k: lambda cfg: make(cfg, k))(k))
