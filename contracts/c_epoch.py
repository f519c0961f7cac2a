"""Batch gradients and whole epochs (C13)."""
from harness import *
from nets import _ptrs, _rd, _wr, _sep, _content, _update, _alignreq, KERNELS, BigNet, FnList
import nets, steps
from layout import layout
from c_opt import OPT, window

class PivotHandler: pass

def optimizer_object(c, net, n, pivot):
    L = layout('optimizer.h', 'optimizer_t', OPT, c.cfg)
    o = Region('opt', 'cells', IC(L['sizeof']), align=16)
    s = dict(bs=c.int('bs', 1), shuffle=c.int('shuffle', 0, 1))
    mets = Region('metricsmem', 'cells', IC(8), writable=False); c.st.mem[mets] = {}
    prog = PIte([(var('has_progress', B), Ptr(Fn.get('progress_fn'), 0)), (TRUE, NULL)])
    c.st.mem[o] = {L['nn']: (8, Ptr(net.nn, 0)), L['shuffle']: (1, s['shuffle']), L['batchsize']: (4, s['bs']), L['run_epoch']: (8, Ptr(Fn.get('run_epoch_fn'), 0)),
                   L['free']: (8, Ptr(Fn.get('free_fn'), 0)), L['progress']: (8, prog), L['metrics']: (8, Ptr(mets, 0)), L['pivot']: (8, pivot)}
    return o, L, s, mets

@contract('optimizer_calc_batch_gradient', {'C13': None, 'C03': SAFETY, 'C12': ('post',)}, ISA4)
def calc(cfg):
    c = Ctx(cfg, ['src/optimizer.c'])
    net = BigNet(c); P, N0, NL = net.P, net.N0, net.NL
    n = c.int('n', 1); i0 = c.int('i0', 0); c.assume(lt(i0, n))
    c.assume(le(mul(n, N0), IC(2 ** 60)), le(mul(n, NL), IC(2 ** 60)))
    X = c.array('X', mul(n, N0), 4, False); Y = c.array('Y', mul(n, NL), 4, False)
    piv = Region('pivot', 'arr', tm.scale(n, 4), es=4, sort=I, writable=False, align=16)
    class H:
        def load(self, ex, st, ty, p, line):
            k = ex.elemidx(p.off, 4)
            if k is None or ty != ('int', 32): raise Unsupported('access to the pivot')
            v = app('pivot', I, k); st.assume(and_(ge(v, IC(0)), lt(v, n))); return v
        def store(self, ex, st, ty, v, p, line): pass
    piv.handler = H(); c.st.mem[piv] = {}
    o, L, s, mets = optimizer_object(c, net, n, Ptr(piv, 0)); bs = s['bs']
    o.writable = False
    g = c.array('batchgrad', P, c.align)
    ip = Region('i', 'cells', IC(4), align=4); c.st.mem[ip] = {0: (4, i0)}
    def backprop(ex, f, it, st, a):
        nn, x, t, gr = a; _ptrs(ex, it, st, nn, x, t, gr); W = 'neuralnet_backpropagation'
        net.is_net(ex, it, st, nn, W)
        _rd(ex, it, st, x, N0, W + ' input'); _rd(ex, it, st, t, NL, W + ' target'); _wr(ex, it, st, gr, P, W + ' gradient'); _alignreq(ex, it, st, gr, W)
        ex.oblige(st, it.line, 'call', TRUE if x.base is X and t.base is Y else FALSE, W + ' is given a sample of the data set')
        ox, ot = ex.elemidx(x.off, 4), ex.elemidx(t.off, 4)
        smp = solve.simp(intdiv(ox, N0), st.facts())
        ex.oblige_eq(st, it.line, 'call', mul(smp, N0), ox, W + ': input is a whole sample')
        ex.oblige_eq(st, it.line, 'call', mul(smp, NL), ot, W + ': target belongs to the same sample')
        _update(ex, st, gr, P, lambda r: app('grad_of', R, smp, r))
        return st
    c.ex.contracts = dict(KERNELS, neuralnet_total_n_parameters=net.total, neuralnet_backpropagation=backprop)
    c.call('optimizer_calc_batch_gradient', o, n, X, Y, ip, g)
    rest = sub(n, i0); b = ite(lt(rest, bs), rest, bs); q = fresh('q', I)
    c.post_eq(c.st.mem[ip][0][1], add(i0, b), 'position advances by the batch size, or to the end')
    for what, cond, k in (('a full batch', ge(rest, bs), bs), ('the last, shorter batch', lt(rest, bs), rest)):
        s2 = c.st.fork(); s2.assume(cond)
        r = fresh('r', I); s2.assume(window(r, IC(0), P))
        c.post_eq(s2.mem[g].at(r), rdiv(msum(IC(0), k, q, app('grad_of', R, app('pivot', I, add(i0, q)), r)), toR(k)), 'mean of the gradients of the samples of %s' % what, s2)
    c.satisfiable()
    return c

# ------------------------------------------------------------------ one epoch: order of samples, evaluation
def store_points(body, v):
    """indices at which the array term differs structurally from its base"""
    pts = []
    def conds(c):
        if c.op == 'eq0' and v in fv(c):
            d = pd(c.args[0]); k = d.get((v,), 0)
            if abs(k) == 1: pts.append(sub(v, c.args[0]) if k == 1 else add(v, c.args[0]))
        elif c.op in ('and', 'or', 'not'):
            for x in c.args: conds(x)
    def go(t):
        if t.op == 'ite': conds(t.args[0]); go(t.args[1]); go(t.args[2])
    go(body)
    out = []
    for p in pts:
        if p not in out and v not in fv(p): out.append(p)
    return out

class Perm:
    """an index array whose content is a permutation of 0..n-1: identity, or app(tok, r) for a token obtained
    from one by exchanging two entries at a time"""
    def __init__(self, c, n): self.c, self.n, self.toks, self.k = c, n, set(), 0
    def token(self, st, reg):
        t = 'perm%d' % self.k; self.k += 1; self.toks.add(t)
        v = fresh('r', I); st.mem[reg] = Arr(v, app(t, I, v)); return t
    def is_perm(self, ex, st, reg, line, what, kind='loop'):
        """obligation: content of reg is a permutation"""
        ex.oblige(st, line, kind, eq(reg.size, tm.scale(self.n, 4)), what + ': one entry per sample')
        c = st.mem.get(reg)
        if not isinstance(c, Arr): ex.oblige(st, line, kind, FALSE, what + ': holds every sample exactly once'); return
        b = c.body
        if b.op == 'ite' and c.v not in fv(b.args[0]):
            for cond, arm in ((b.args[0], b.args[1]), (not_(b.args[0]), b.args[2])):
                s = st.fork(); s.assume(cond)
                if solve.infeasible(s.facts()): continue
                s.mem[reg] = Arr(c.v, arm); self.is_perm(ex, s, reg, line, what, kind)
            return
        if b.op == 'app' and b.args[0] in self.toks and b.args[1] is c.v: ex.oblige(st, line, kind, TRUE, what + ': holds every sample exactly once'); return
        r = fresh('r', I); s = st.fork(); s.assume(window(r, IC(0), self.n))
        ex.oblige_eq(s, line, kind, c.at(r) if c.body.sort == I else IC(-1), r, what + ': holds every sample exactly once')
    def hook(self, where):
        def h(ex, f, L, phis, init, s0, rets):
            if not steps.loop_calls(ex, f, L.blocks, {'rand', 'random', 'lrand48', 'rand_r'}): return None
            reg = where(s0)
            if reg is None: return None
            P = self
            def havoc(ex, st): P.tok = P.token(st, reg)
            def entry(ex, st, line): P.is_perm(ex, st, reg, line, 'sample order before shuffling')
            def step(ex, st, line):
                c = st.mem[reg]; v = c.v; pts = store_points(c.body, v)
                if c.body.op == 'app' and c.body.args[0] == P.tok: return
                if len(pts) == 1: pts = pts * 2
                if len(pts) != 2:
                    ex.oblige(st, line, 'loop', FALSE, 'shuffle step exchanges two entries'); return
                a, b = pts
                for x in (a, b): ex.oblige(st, line, 'loop', window(x, IC(0), P.n), 'shuffle step stays inside the order')
                r = fresh('r', I); s = st.fork(); s.assume(window(r, IC(0), P.n))
                old = lambda i: app(P.tok, I, i)
                ex.oblige_eq(s, line, 'loop', c.at(r), ite(eq(r, a), old(b), ite(eq(r, b), old(a), old(r))), 'shuffle step exchanges two entries and nothing else')
            hk = steps.StepLoop(['rand'], {reg}, havoc, entry, step, marks=[P.n, sub(P.n, IC(1))])
            return steps.step_loop(hk, ex, f, L, phis, init, s0, rets)
        return h

@contract('optimizer_run_epoch', {'C13': None, 'C19': ('call', 'post'), 'C14': ('write', 'bounds', 'heap'), 'C03': SAFETY}, ['nosimd', 'avx512'], functions=['optimizer_run_epoch', 'optimizer_get_n_metrics'])
def epoch(cfg):
    out = []
    for case in ('first epoch', 'same number of samples', 'other number of samples'):
      for _ in (0,):
        c = Ctx(cfg, ['src/optimizer.c', INLINES]); c.ex.heap_may_fail = False
        net = BigNet(c); n = c.int('n', 1); m = c.int('n_before', 1); nv = c.int('n_valid', 0)
        o, L, s, _ = optimizer_object(c, net, n, NULL)
        M = c.int('M', 0, INT_MAX // 16); mets = FnList(c, 'metric', M).reg
        perm = Perm(c, n)
        LP = layout('optimizer.h', 'optimizer_t', ['pivot', 'n_pivot', 'metrics'], cfg)
        cells = dict(c.st.mem[o]); cells[LP['metrics']] = (8, Ptr(mets, 0))
        if case == 'first epoch':
            cells[LP['pivot']] = (8, NULL); cells[LP['n_pivot']] = (4, c.int('n_pivot', 0)); old = None
        else:
            k = n if case.startswith('same') else m
            old = Region('pivot', 'arr', tm.scale(k, 4), es=4, sort=I, align=16); old.heap = 'malloc'
            c.st.ghost[('a', old)] = IC(1); c.st.ghost[('f', old)] = IC(0); c.ex.heap = [old]
            if k is n: perm.token(c.st, old)
            else:
                c.assume(ne(m, n)); v = fresh('r', I); c.st.mem[old] = Arr(v, app('oldpivot', I, v))
            cells[LP['pivot']] = (8, Ptr(old, 0)); cells[LP['n_pivot']] = (4, k)
        c.st.mem[o] = cells
        X = Region('X', 'cells', IC(1), writable=False); Y = Region('Y', 'cells', IC(1), writable=False)
        VX = Region('VX', 'cells', IC(1), writable=False); VY = Region('VY', 'cells', IC(1), writable=False)
        for r in (X, Y, VX, VY): c.st.mem[r] = {}
        hx, hy = var('has_valid_X', B), var('has_valid_Y', B)
        pvx, pvy = PIte([(hx, Ptr(VX, 0)), (TRUE, NULL)]), PIte([(hy, Ptr(VY, 0)), (TRUE, NULL)])
        res = c.array('results', mul(IC(2), M), 4)
        c.st.ghost['ran'] = IC(0); c.st.ghost['ev_t'] = IC(0); c.st.ghost['ev_v'] = IC(0)
        where = lambda st: pivreg(st)
        def pivreg(st):
            p = st.mem[o][LP['pivot']][1]
            la = heap.feasible(st, p)
            return la[0][1].base if len(la) == 1 and isinstance(la[0][1].base, Region) else None
        def isp(p, r): return isinstance(p, Ptr) and p.base is r and p.off is IC(0)
        def run_epoch(ex, f, it, st, a):
            self, nn_, x, y = a
            ex.oblige(st, it.line, 'call', TRUE if isp(self, o) else FALSE, 'run_epoch is called on this optimizer')
            ex.oblige_eq(st, it.line, 'call', nn_, n, 'run_epoch is given the number of samples')
            ex.oblige(st, it.line, 'call', TRUE if isp(x, X) and isp(y, Y) else FALSE, 'run_epoch is given the training data')
            ex.oblige(st, it.line, 'call', eq(add(st.ghost['ev_t'], st.ghost['ev_v']), IC(0)), 'evaluation follows the training')
            r = pivreg(st)
            if r is None: ex.oblige(st, it.line, 'call', FALSE, 'run_epoch finds a sample order')
            else: perm.is_perm(ex, st, r, it.line, 'sample order at the start of the epoch', 'call')
            st.ghost['ran'] = add(st.ghost['ran'], IC(1)); return st
        def evaluate(ex, f, it, st, a):
            nn, k, x, y, ms, z = a
            net.is_net(ex, it, st, nn, 'evaluate')
            ex.oblige(st, it.line, 'call', TRUE if isp(ms, mets) else FALSE, 'evaluate is given the metrics of the optimizer')
            def case(st2, xx):
                if xx.base is X:
                    ex.oblige(st2, it.line, 'call', TRUE if isp(y, Y) and isp(z, res) else FALSE, 'training metrics: data and place of the results')
                    ex.oblige_eq(st2, it.line, 'call', k, n, 'training metrics: number of samples')
                    st2.ghost['ev_t'] = add(st2.ghost['ev_t'], IC(1)); nm = 'train'
                else:
                    yy = heap.feasible(st2, y)
                    ok = xx.base is VX and len(yy) == 1 and yy[0][1].base is VY and isinstance(z, Ptr) and z.base is res
                    ex.oblige(st2, it.line, 'call', TRUE if ok else FALSE, 'validation metrics: data and place of the results')
                    ex.oblige_eq(st2, it.line, 'call', z.off, mul(IC(4), M), 'validation metrics follow the training metrics')
                    ex.oblige_eq(st2, it.line, 'call', k, nv, 'validation metrics: number of samples'); ex.oblige(st2, it.line, 'call', gt(nv, IC(0)), 'validation set is not empty')
                    st2.ghost['ev_v'] = add(st2.ghost['ev_v'], IC(1)); nm = 'valid'
                if isinstance(z, Ptr) and z.base is res: _update(ex, st2, z, M, lambda r: app(nm + '_metric', R, r))
            heap.distribute(ex, st, x, case)
            return st
        c.ex.contracts = dict(neuralnet_total_n_parameters=net.total, run_epoch_fn=run_epoch, evaluate=evaluate)
        c.ex.loop_hooks = [perm.hook(where)]
        c.call('optimizer_run_epoch', o, n, X, Y, nv, pvx, pvy, res)
        hv = and_(hx, hy, gt(nv, IC(0)))
        c.post_eq(c.st.ghost['ran'], IC(1), 'the epoch is run exactly once')
        c.post_eq(c.st.ghost['ev_t'], IC(1), 'training metrics are computed once')
        c.post_eq(c.st.ghost['ev_v'], ite(hv, IC(1), IC(0)), 'validation metrics are computed exactly when validation data are given')
        c.post_elem(res, M, lambda j: app('train_metric', R, j), 'training results')
        j = fresh('r', I); s2 = c.st.fork(); s2.assume(window(j, IC(0), M))
        c.post_eq(s2.mem[res].at(add(M, j)), ite(hv, app('valid_metric', R, j), app('results', R, add(M, j))), 'validation results', s2)
        c.post_eq(c.st.mem[o][LP['n_pivot']][1], n, 'the length of the sample order is remembered')
        live = sum_([heap.live(c.st, r) for r in c.ex.heap])
        c.post_eq(live, IC(1), 'exactly one sample order is owned'); r = pivreg(c.st)
        c.post(TRUE if r is not None else FALSE, 'the sample order is kept')
        if r is not None: c.post_eq(heap.live(c.st, r), IC(1), 'the sample order is live'); c._oblige(lambda: perm.is_perm(c.ex, c.st, r, 0, 'sample order kept for the next epoch', 'post'))
        for f in ('nn', 'shuffle', 'batchsize', 'metrics', 'run_epoch'):
            a, b = c.st.mem[o][L[f]][1], cells[L[f]][1]
            c.post(TRUE if veq(a, b) else FALSE, 'field %s is unchanged' % f)
        c.satisfiable(); out.append(c)
    return out

def sum_(xs):
    t = IC(0)
    for x in xs: t = add(t, x)
    return t
