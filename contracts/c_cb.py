"""Callbacks (C15, C14) and the metric count."""
from harness import *
from nets import FnList, _update
import nets
from layout import layout

@contract('optimizer_get_n_metrics', {'C19': None, 'C15': None, 'C13': None, 'C03': SAFETY}, ['nosimd'])
def getn(cfg):
    out = []
    for case in (0, 1):
        c = Ctx(cfg, [INLINES])
        L = layout('optimizer.h', 'optimizer_t', ['metrics'], cfg); Z = layout('optimizer.h', 'optimizer_t', ['metrics'], cfg)['sizeof']
        o = Region('opt', 'cells', IC(Z), writable=False, align=16); M = c.int('M', 0, INT_MAX - 1)
        ms = FnList(c, 'metric', M)
        c.st.mem[o] = {L['metrics']: (8, Ptr(ms.reg, 0) if case else NULL)}
        rv = c.call('optimizer_get_n_metrics', o)
        c.post_eq(rv, M if case else IC(0), 'number of metrics in the list' if case else 'no list, no metrics')
        c.satisfiable(); out.append(c)
    return out

FLT_MAX = RC(Fraction(2 ** 128 - 2 ** 104))
CB = {   # header, source, settings
    'earlystopping': dict(src='src/earlystopping.c', typ='struct _earlystopping_t', cfg='earlystopping_config', ints=['patience', 'monitor_idx'], bools=['greater_is_better'], ptrs=[],
                          fresh=['early_stopping_flag', 'best_so_far', 'epochs_since_improvement']),
    'modelcheckpoint': dict(src='src/modelcheckpoint.c', typ='struct _modelcheckpoint_t', cfg='modelcheckpoint_config', ints=['monitor_idx'], bools=['greater_is_better', 'verbose'], ptrs=['filename'],
                            fresh=['best_so_far']),
}
def make(c, k, hasfile=True, fail=False):
    """create a callback object through its constructor with arbitrary settings"""
    d = CB[k]
    L = layout(k + '.c', d['typ'], d['ints'] + d['bools'] + d['ptrs'] + d['fresh'], c.cfg)
    CL = layout(k + '.h', d['cfg'], d['ints'] + d['bools'] + d['ptrs'], c.cfg)
    s = {}
    for f in d['ints']: s[f] = c.int(f, -2 ** 31 if f == 'monitor_idx' else 0)
    for f in d['bools']: s[f] = c.int(f, 0, 1)
    cells = {CL[f]: (4 if f in d['ints'] else 1, s[f]) for f in s}
    if d['ptrs']:
        s['filename'] = Ptr(cstr.symregion(c.ex, c.st, 'the_filename'), 0) if hasfile else NULL
        cells[CL['filename']] = (8, s['filename'])
    cf = Region('config', 'cells', IC(CL['sizeof']), writable=False, align=16); c.st.mem[cf] = cells
    c.ex.heap_may_fail = fail
    rv = c.call(k + '_new', cf)
    return rv, L, s, d

def results_vector(c):
    M = c.int('M', 0, INT_MAX // 16); hv = c.int('validation_set_given', 0, 1)
    return M, hv, c.array('results', ite(ne(hv, IC(0)), mul(IC(2), M), M), 4, False)

for k in CB:
    def newjob(cfg, k=k):
        out = []
        for hasfile in ((True, False) if CB[k]['ptrs'] else (True,)):
            for fail in (False, True):
                c = Ctx(cfg, [CB[k]['src'], INLINES]); rv, L, s, d = make(c, k, hasfile, fail)
                if fail:
                    r = c.ex.heap[0]; st = c.st.fork(); st.assume(not_(r.ok)) if isinstance(r.ok, T) and r.ok.op != 'const' else None
                    la = heap.feasible(st, rv)
                    c.post(TRUE if len(la) == 1 and la[0][1].base is None and la[0][1].off is IC(0) else FALSE, 'no object when memory runs out', st)
                    c.post_eq(IC(len(c.ex.heap)), IC(1), 'one block per object')
                    c.satisfiable(); out.append(c); continue
                ok = isinstance(rv, Ptr) and getattr(rv.base, 'heap', None) and rv.off is IC(0)
                c.post(TRUE if ok else FALSE, 'a new object is returned')
                if not ok: out.append(c); continue
                o = rv.base; m = c.st.mem[o]
                cell = lambda f: m.get(L[f], (0, None))[1]
                for f in d['ints'] + d['bools']:
                    v = cell(f)
                    c.post_eq(v, s[f], 'setting %s is taken over' % f) if isinstance(v, T) else c.post(FALSE, 'setting %s' % f)
                if d['ptrs']: c.post(TRUE if cell('filename') is not None and veq(cell('filename'), s['filename']) else FALSE, 'file name is taken over')
                if k == 'earlystopping':
                    c.post_eq(cell('early_stopping_flag'), IC(0), 'no stop is asked for at the start'); c.post_eq(cell('epochs_since_improvement'), IC(0), 'no epochs at the start')
                c.post_eq(cell('best_so_far'), ite(ne(s['greater_is_better'], IC(0)), neg(FLT_MAX), FLT_MAX), 'any score is better than none')
                c.call('callback_free', o)
                for r in c.ex.heap: c.post_eq(heap.live(c.st, r), IC(0), 'callback_free releases the object')
                c.satisfiable(); out.append(c)
        return out
    contract(k + '_new', {'C15': None, 'C14': None}, ['nosimd'], functions=[k + '_new', 'callback_free'])(newjob)

    def runjob(cfg, k=k):
        out = []
        for hasfile in ((True, False) if CB[k]['ptrs'] else (True,)):
            c = Ctx(cfg, [CB[k]['src'], INLINES]); rv, L, s, d = make(c, k, hasfile)
            if not (isinstance(rv, Ptr) and getattr(rv.base, 'heap', None)): raise Unsupported('%s_new does not return an object' % k)
            o = rv.base
            # an arbitrary state reached by any history of epochs
            m = dict(c.st.mem[o]); b0 = c.real('best'); c.assume(le(b0, FLT_MAX), ge(b0, neg(FLT_MAX)))
            m[L['best_so_far']] = (4, b0)
            if k == 'earlystopping':
                e0, f0 = c.int('since', 0, INT_MAX - 1), c.int('flag', 0, 1)
                m[L['epochs_since_improvement']] = (4, e0); m[L['early_stopping_flag']] = (1, f0)
            c.st.mem[o] = m
            M, hv, res = results_vector(c)
            OL = layout('optimizer.h', 'optimizer_t', ['metrics', 'nn'], cfg)
            ms = nets.FnList(c, 'metric', M)
            nn = Region('nn', 'cells', IC(64), writable=False); c.st.mem[nn] = {}
            opt = Region('opt', 'cells', IC(OL['sizeof']), writable=False, align=16)
            c.st.mem[opt] = {OL['metrics']: (8, Ptr(ms.reg, 0)), OL['nn']: (8, Ptr(nn, 0))}
            idx = ite(lt(s['monitor_idx'], IC(0)), ite(ne(hv, IC(0)), M, IC(0)), s['monitor_idx'])
            c.assume(gt(M, IC(0)), lt(idx, ite(ne(hv, IC(0)), mul(IC(2), M), M)))
            score = app('results', R, idx)
            gib = ne(s['greater_is_better'], IC(0))
            imp = or_(and_(gib, gt(score, b0)), and_(not_(gib), lt(score, b0)))
            c.st.ghost['saved'] = IC(0)
            def save(ex, f, it, st, a):
                nn_, fmt, *rest = a
                ex.oblige(st, it.line, 'call', TRUE if isinstance(nn_, Ptr) and nn_.base is nn and nn_.off is IC(0) else FALSE, "the network of the optimizer is saved")
                by = cstr.conc(fmt) if isinstance(fmt, Ptr) else None
                want = s['filename'] if hasfile else None
                if by == b'%s' and len(rest) == 1: p = rest[0]
                elif by is not None and b'%' not in by and not rest: p = fmt
                else: p = None
                if p is None: ok = False
                else:
                    la = heap.feasible(st, p)
                    ok = len(la) == 1 and (la[0][1].base is want.base and la[0][1].off is IC(0) if hasfile else cstr.conc(la[0][1]) == b'checkpoint.npz')
                ex.oblige(st, it.line, 'call', TRUE if ok else FALSE, 'the checkpoint is saved under the configured name')
                st.ghost['saved'] = add(st.ghost['saved'], IC(1))
                if it.res is not None: st.env[it.res] = fresh('saveres', I)
                return st
            c.ex.contracts = dict(neuralnet_save=save)
            c.call('callback_run', o, opt, res, ne(hv, IC(0)))
            m = c.st.mem[o]; cell = lambda f: m[L[f]][1]
            c.post_eq(cell('best_so_far'), ite(imp, score, b0), 'the best score is kept')
            for f in s:
                v = cell(f)
                if isinstance(v, T) and isinstance(s[f], T): c.post_eq(v, s[f], 'setting %s is unchanged' % f)
                else: c.post(TRUE if veq(v, s[f]) else FALSE, 'setting %s is unchanged' % f)
            if k == 'earlystopping':
                c.post_eq(cell('epochs_since_improvement'), ite(imp, IC(0), add(e0, IC(1))), 'epochs since the best score are counted')
                stop = or_(ne(f0, IC(0)), and_(not_(imp), gt(add(e0, IC(1)), s['patience'])))
                rv = c.call('earlystopping_do_stop', o)
                c.post(eq(ne(rv, IC(0)), stop) if rv.sort == I else eq(rv, stop), 'stop is asked for exactly when the best score is older than the patience')
            else:
                c.post_eq(c.st.ghost['saved'], ite(imp, IC(1), IC(0)), 'the checkpoint is saved exactly when the score improves')
            c.satisfiable(); out.append(c)
        return out
    contract(k + '_callback_run', {'C15': None, 'C14': None}, ['nosimd'], functions=[k + '_callback_run', 'callback_run'] + (['earlystopping_do_stop'] if k[0] == 'e' else []))(runjob)
