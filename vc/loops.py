"""Loop summarisation: unrolling of concrete loops, closed forms for all other loops.

For a loop with iteration counter k every loop-carried scalar gets a closed form in k
(linear, SUM, fold) and every modified array a closed form over its element index
(window written so far / accumulated SUM).  The closed forms are *invariants*: they
are checked inductively by re-executing the body at a generic iteration k (initiation
holds by construction, consecution is an obligation)."""
from fractions import Fraction
from terms import *
import terms as tm
import solve, execu
from solve import prove, decide, simp, prove_eq, infeasible
from execu import *
from execu import Unsupported

def do_loop(ex, f, L, inc, rets):
    b = f.blocks[L.header]
    phis = [it for it in b.ins if it.op == 'phi']
    s = ex.enter(f, L.header, inc)
    for it in phis:
        v = s.env[it.res]
        if not isinstance(v, PIte): continue
        # a conditional initial pointer: the loop is analysed for each alternative that is possible here
        la = [(c, q) for c, q in alts(v) if c is TRUE or not infeasible(s.facts() + [c])]
        if len(la) == 1: s.env[it.res] = la[0][1]; continue
        if not la: return []
        out = []
        for c, q in la:
            s1 = s.fork(); s1.assume(c, True); s1.env[it.res] = q
            out += do_loop_from(ex, f, L, phis, s1, rets)
        return out
    return do_loop_from(ex, f, L, phis, s, rets)

def do_loop_from(ex, f, L, phis, s, rets):
    for it in phis:
        if isinstance(s.env[it.res], PIte) and len(alts(s.env[it.res])) > 1:
            la = [(c, q) for c, q in alts(s.env[it.res]) if not infeasible(s.facts() + [c])]
            if len(la) == 1: s.env[it.res] = la[0][1]
    init = {it.res: s.env[it.res] for it in phis}
    r = try_unroll(ex, f, L, phis, s.fork(), rets)
    if r is not None: return r
    for h in getattr(ex, 'loop_hooks', ()):
        r = h(ex, f, L, phis, init, s, rets)
        if r is not None: return r
    return summarise(ex, f, L, phis, init, s, rets)

def latch_values(ex, f, phis, frm, s):
    out = {}
    for it in phis:
        for v, bl in it.ops:
            if bl == frm: out[it.res] = ex.const(s, it.ty, v, f); break
    return out

# ------------------------------------------------------------------ unrolling
def header_decided(ex, f, L, s):
    """does the header's own branch depend only on constants in state s?"""
    b = f.blocks[L.header]
    ex.silent += 1
    try:
        st = s.fork()
        hit = []
        for it in b.ins:
            if it.op == 'phi': continue
            if it.op == 'br':
                if it.x[0] is None: return None
                c = ex.const(st, it.x[0][0], it.x[0][1], f)
                if c is TRUE or c is FALSE: return c
                if ex.unroll_decide:
                    d = decide(st.facts(), c)
                    if d is not None: return TRUE if d else FALSE
                return None
            if it.op in ('call', 'switch', 'ret', 'store', 'alloca'): return None
            st = ex.instr(f, it, st)
            if st is None: return None
    except Unsupported:
        return None
    finally:
        ex.silent -= 1
    return None

def try_unroll(ex, f, L, phis, s, rets):
    d = header_decided(ex, f, L, s)
    if d is None:
        if not _concrete_side_exit(ex, f, L, phis, s): return None
    exits_all, rets_all = [], []
    n0 = len(ex.obls)
    cur = s
    for k in range(ex.maxunroll):
        if k > 0:
            d = header_decided(ex, f, L, cur)
            if d is None and not _concrete_side_exit(ex, f, L, phis, cur):
                del ex.obls[n0:]
                return None
        latches, exits, rr = ex.region(f, L, [(None, cur)])
        exits_all += exits
        rets_all += rr
        if not latches:
            rets.extend(rets_all)
            return exits_all
        if len(latches) > 1: raise Unsupported('several latches')
        frm, ls = latches[0]
        if infeasible(ls.facts()):
            rets.extend(rets_all); return exits_all
        nv = latch_values(ex, f, phis, frm, ls)
        ls.env.update(nv)
        cur = ls
    del ex.obls[n0:]
    return None

def _concrete_side_exit(ex, f, L, phis, s):
    """bottom-tested / infinite-for loops over concrete counters"""
    return ex.unroll_decide and f.blocks[L.header].ins[-1].op == 'br' and f.blocks[L.header].ins[-1].x[0] is None

# ------------------------------------------------------------------ summaries
def generic_of(ex, v, tag):
    if isinstance(v, tuple): return tuple(generic_of(ex, x, tag) for x in v)
    if isinstance(v, Ptr):
        es = ptr_es(v)
        return Ptr(v.base, tm.scale(fresh(tag, I), es))
    if isinstance(v, PIte): raise Unsupported("loop-carried conditional pointer")
    if isinstance(v, Agg): return Agg(generic_of(ex, x, tag) for x in v)
    x = fresh(tag, v.sort)
    return x

def ptr_es(v):
    b = v.base
    return b.es if isinstance(b, Region) and (b.kind == 'arr' or getattr(b, 'stepped', False)) else 1

def flat(v):
    if isinstance(v, tuple): return [x for y in v for x in flat(y)]
    if isinstance(v, Ptr):
        es = ptr_es(v)
        if es == 1: return [v.off]
        d = tm.scale(v.off, Fraction(1, es))
        if any(Fraction(c).denominator != 1 for c in pd(d).values()): raise Unsupported('loop-carried pointer not element aligned in %s' % v.base.name)
        return [d]
    if isinstance(v, Agg): return [x for y in v for x in flat(y)]
    return [v]

def rebuildv(v, it):
    """same shape as v with leaves taken from iterator it"""
    if isinstance(v, tuple): return tuple(rebuildv(x, it) for x in v)
    if isinstance(v, Ptr): return Ptr(v.base, tm.scale(next(it), ptr_es(v)))
    if isinstance(v, Agg): return Agg(rebuildv(x, it) for x in v)
    return next(it)

def sameshape(a, b):
    if isinstance(a, tuple): return isinstance(b, tuple) and len(a) == len(b)
    if isinstance(a, Ptr): return isinstance(b, Ptr) and a.base is b.base
    if isinstance(a, T): return isinstance(b, T) and a.sort == b.sort
    return isinstance(a, Agg) and isinstance(b, Agg)

def resort(ex, s0):
    """an untyped block got its element type in the body: restart with that type"""
    ch = False
    for r, c in list(s0.mem.items()):
        if isinstance(c, Arr) and c.body.sort != r.sort and getattr(r, 'heap', None):
            execu.RETAG(ex, s0, r, r.es, r.sort == I); ch = True
    return ch

def summarise(ex, f, L, phis, init, s0, rets):
    b = f.blocks[L.header]
    # ---- discovery
    modarr, modcell = {}, {}          # Region -> fname ; (Region, off) -> generic value
    for attempt in range(8):
        g = s0.fork()
        gv = {}
        nbits = {}
        for it in phis:
            x = generic_of(ex, init[it.res], 'phi')
            gv[it.res] = x; g.env[it.res] = x
            if it.ty[0] == 'int' and it.ty[1] > 1:
                w = it.ty[1]
                RANGES[x] = (Fraction(-2 ** (w - 1)), Fraction(2 ** (w - 1) - 1))
        for r, fn in modarr.items():
            v = fresh('r', I)
            g.mem[r] = Arr(v, app(fn, r.sort, v))
        for (r, off), gvv in modcell.items():
            c = dict(g.mem[r]); c[off] = (c[off][0] if off in c else gvv[0], gvv[1]); g.mem[r] = c
        ex.silent += 1
        try:
            pre = {r: c for r, c in g.mem.items()}
            base_pc = len(g.pc)
            latches, exits, rr = ex.region(f, L, [(None, g.fork())])
        finally:
            ex.silent -= 1
        if resort(ex, s0): continue
        if not latches:
            # body never loops back: execute once, with obligations
            s = s0.fork()
            latches, exits, rr = ex.region(f, L, [(None, s)])
            if latches: raise Unsupported('inconsistent loop')
            rets.extend(rr)
            return exits
        if len(latches) > 1: raise Unsupported('several latches')
        frm, ls = latches[0]
        changed = False
        for r, c in ls.mem.items():
            if r not in s0.mem and r not in pre: continue      # allocated in the body
            p = pre.get(r)
            if p is None: continue
            if isinstance(c, Arr):
                if not isinstance(p, Arr): continue
                if r in modarr: continue
                cb = c.body if c.v is p.v else subst(c.body, {c.v: p.v})
                if cb is not p.body:
                    modarr[r] = 'M%d_%s' % (next(tm._fresh), r.name); changed = True
            else:
                for off, (sz, v) in c.items():
                    if (r, off) in modcell: continue
                    pv = p.get(off)
                    if pv is None:
                        # first touched in the body: lazy initial value if it was only read
                        if r.lazy:
                            iv = s0.mem[r].get(off)
                            lv = None
                            for (tag, rr_, o_, ty_), x in ex.__dict__.get('lazymemo', {}).items():
                                if rr_ is r and o_ == off: lv = x
                            if lv is not None and veq(lv, v): continue
                            if lv is None:
                                lv = generic_of(ex, v, 'init')
                            m = dict(s0.mem[r]); m[off] = (sz, lv); s0.mem[r] = m
                            modcell[(r, off)] = (sz, generic_of(ex, lv, 'cell')); changed = True
                        elif r.stack or True:
                            lv = generic_of(ex, v, 'undef')
                            m = dict(s0.mem[r]); m[off] = (sz, lv); s0.mem[r] = m
                            modcell[(r, off)] = (sz, generic_of(ex, lv, 'cell')); changed = True
                        continue
                    if pv[0] != sz: raise Unsupported('cell size changes in loop %s line %s: %s+%s' % (f.name, loopline(f, L), r, off))
                    if not veq(pv[1], v):
                        if isinstance(pv[1], PIte):
                            la = [q for cq, q in alts(pv[1]) if not infeasible(s0.facts() + [cq])]
                            if len(la) != 1: raise Unsupported('loop-carried conditional pointer')
                            m = dict(s0.mem[r]); m[off] = (sz, la[0]); s0.mem[r] = m; changed = True; continue
                        gg = generic_of(ex, pv[1], 'cell')
                        if isinstance(gg, T) and gg.sort == I and sz in (1, 2, 4, 8):
                            RANGES[gg] = (Fraction(-2 ** (8 * sz - 1)), Fraction(2 ** (8 * sz - 1) - 1))
                        modcell[(r, off)] = (sz, gg)
                        changed = True
        for r, c in pre.items():
            if isinstance(c, dict) and isinstance(ls.mem.get(r), dict):
                for off in c:
                    if off not in ls.mem[r]: raise Unsupported('cell vanishes in loop')
        if not changed: break
    else: raise Unsupported('loop frame does not stabilise')

    kap = fresh('k', I)
    RANGES[kap] = (Fraction(0), Fraction(2 ** 63))
    lv = latch_values(ex, f, phis, frm, ls)
    facts = [t for t, _ in s0.pc]
    gfacts = facts + [t for t, _ in ls.pc[base_pc:]]
    # ---- collect scalar loop variables: generic var -> (init term, next term)
    loopvars = {}
    for it in phis:
        if not sameshape(gv[it.res], lv[it.res]): raise Unsupported('loop-carried value changes shape (%s in %s)' % (it.res, f.name))
        for x, i0, n in zip(flat(gv[it.res]), flat(init[it.res]), flat(lv[it.res])): loopvars[x] = (i0, n)
    for (r, off), (sz, gvv) in modcell.items():
        i0 = s0.mem[r][off][1]; n = ls.mem[r][off][1]
        if not sameshape(gvv, n): raise Unsupported('loop-carried cell changes shape (%s+%d)' % (r.name, off))
        for x, a, c in zip(flat(gvv), flat(i0), flat(n)): loopvars[x] = (a, c)
    arrs = {}
    for r, fn in modarr.items():
        c = ls.mem[r]
        c0 = s0.mem[r]
        arrs[fn] = (r, c0, c)
    def exit_conds():
        out = []
        for frm_, to, es in exits:
            out.append((frm_, to, and_(*[t for t, bb in es.pc[base_pc:] if bb])))
        for es, _ in rr:
            out.append((None, None, and_(*[t for t, bb in es.pc[base_pc:] if bb])))
        return out
    kfacts = facts + [ge(kap, IC(0))]
    closed, closedarr = {}, {}
    def cl(t):
        t = subst(t, closed) if closed else t
        return replace_arrays(t, closedarr, kap)
    pend = dict(loopvars); parr = list(arrs); second = False; aux = []
    while pend or parr:
        progress = False
        why = None
        ready = lambda t: not (fv(t) & set(pend)) and not any(uses_fn(t, x) for x in parr)
        def kf_now():
            return kfacts + [y for y in (cl(t) for t, bb in ls.pc[base_pc:]) if ready(y)]
        if pend:
            kf = None
            def facts_now():
                nonlocal kf
                if kf is None: kf = kf_now()
                return kf
            progress = solve_scalars(ex, pend, closed, set(parr), kap, cl, facts_now, aux)
            if progress:      # re-close: closed forms only mention kap
                pass
        for fn in list(parr):
            r, c0, c = arrs[fn]
            body = cl(c.body)
            if fv(body) & set(pend) or any(uses_fn(body, o) for o in parr if o != fn): continue
            try: sol = solve_array(ex, fn, r, c.v, body, c0, kap, kf_now())
            except Unsupported:
                if pend or second: raise
                break
            closedarr[fn] = sol
            parr.remove(fn); progress = True
        if not progress and not pend and parr and not second:
            # all scalars are known: look at one iteration again with their closed forms, where more is decided
            second = True
            g2 = s0.fork()
            for it in phis: g2.env[it.res] = rebuildv(gv[it.res], iter([closed[x] for x in flat(gv[it.res])]))
            for r, fn in modarr.items():
                v = fresh('r', I); g2.mem[r] = Arr(v, app(fn, r.sort, v))
            for (r, off), (sz, gvv) in modcell.items():
                m = dict(g2.mem[r]); m[off] = (sz, rebuildv(gvv, iter([closed[x] for x in flat(gvv)]))); g2.mem[r] = m
            g2.assume(ge(kap, IC(0)))
            pv = [not_(subst(cl(x), {kap: sub(kap, IC(1))})) for _, _, x in exit_conds() if ready(cl(x))]
            if pv: g2.assume(or_(eq(kap, IC(0)), and_(*pv)))
            xc = [cl(x) for _, _, x in exit_conds()]
            if len(xc) == 1 and ready(xc[0]):
                a = exit_index(simp(xc[0], kfacts), kap)
                if a is not None and prove(kfacts, ge(a, IC(0))): g2.assume(le(kap, a))
            instantiate(g2, kap, add(kap, IC(1)))
            ex.silent += 1
            try: lt2, ex2, rr2_ = ex.region(f, L, [(None, g2)])
            finally: ex.silent -= 1
            if len(lt2) == 1:
                l2 = lt2[0][1]
                for fn in parr:
                    r, c0, c = arrs[fn]; arrs[fn] = (r, c0, l2.mem[r])
                ls = l2
                progress = True
        if not progress: break
    if pend:
        x = next(iter(pend))
        raise Unsupported('no closed form for loop variable (next value %s)' % pp(cl(pend[x][1]))[:300])
    if parr: raise Unsupported('mutually recursive array updates in loop of ' + f.name)
    conds = [(a, c, simp(cl(x), kfacts)) for a, c, x in exit_conds()]
    # locals created in the body must not leak into closed forms
    for x, t in closed.items(): check_leak(t, s0, kap, loopvars)

    def at(k):
        """state at the head of iteration k"""
        st = s0.fork()
        for it in phis:
            leaves = [subst(closed[x], {kap: k}) for x in flat(gv[it.res])]
            st.env[it.res] = rebuildv(gv[it.res], iter(leaves))
        for fn, (r, c0, c) in arrs.items():
            v, body = closedarr[fn]
            st.mem[r] = Arr(v, subst(body, {kap: k}))
        for (r, off), (sz, gvv) in modcell.items():
            leaves = [subst(closed[x], {kap: k}) for x in flat(gvv)]
            m = dict(st.mem[r]); m[off] = (sz, rebuildv(gvv, iter(leaves))); st.mem[r] = m
        return st

    # ---- consecution: execute iteration k with obligations
    st = at(kap)
    st.assume(ge(kap, IC(0)))
    prevok = [not_(subst(x, {kap: sub(kap, IC(1))})) for _, _, x in conds]
    if prevok: st.assume(or_(eq(kap, IC(0)), and_(*prevok)))
    for t, _ in aux: st.assume(t)
    instantiate(st, kap, add(kap, IC(1)))
    if len(conds) == 1:
        a = exit_index(conds[0][2], kap)
        if a is not None and prove(kfacts, ge(a, IC(0))): st.assume(le(kap, a))
    wcounter = trip_upper(ex, phis, gv, init, lv, kap, closed, st)
    latches2, exits2, rr2 = ex.region(f, L, [(None, st)])
    for frm2, ls2 in latches2:
        if infeasible(ls2.facts()): continue
        lv2 = latch_values(ex, f, phis, frm2, ls2)
        k1 = add(kap, IC(1))
        line = loopline(f, L)
        for it in phis:
            if not sameshape(gv[it.res], lv2[it.res]): raise Unsupported('shape')
            for x, n in zip(flat(gv[it.res]), flat(lv2[it.res])):
                want = subst(closed[x], {kap: k1})
                if want is n: continue
                ex.oblige_eq(ls2, line, 'loop', n, want, 'loop invariant is inductive (scalar)')
        for _, t in aux: ex.oblige(ls2, line, 'loop', t, 'auxiliary loop invariant is inductive')
        for fn, (r, c0, c) in arrs.items():
            v, body = closedarr[fn]
            cc = ls2.mem[r]
            rv = fresh('r', I)
            want = subst(body, {kap: k1, v: rv}); got = cc.at(rv)
            if want is got: continue
            s3 = ls2.fork()
            s3.assume(ge(rv, IC(0)))
            if r.size is not None: s3.assume(lt(tm.scale(rv, r.es), r.size))
            ex.oblige_eq(s3, line, 'loop', got, want, 'loop invariant is inductive (%s)' % r.name)
        for (r, off), (sz, gvv) in modcell.items():
            for x, n in zip(flat(gvv), flat(ls2.mem[r][off][1])):
                want = subst(closed[x], {kap: k1})
                if want is n: continue
                ex.oblige_eq(ls2, line, 'loop', n, want, 'loop invariant is inductive (%s+%d)' % (r.name, off))
    # ---- exits
    N, nf, term = trip_count(ex, conds, kap, kfacts, s0)
    if not term:
        ex.oblige(s0, loopline(f, L), 'loop', FALSE if ex.require_termination else TRUE, 'termination not established')
        ex.notes.add('termination assumed: loop at %s:%d' % (f.name, loopline(f, L)))
    if nf and conds and ex.hints:
        body = and_(*[not_(x) for _, _, x in conds]); now = s0.facts() + nf + [or_(*[subst(x, {kap: N}) for _, _, x in conds])]
        for h in ex.hints:
            if prove(now + [or_(lt(h, IC(0)), ge(h, N), subst(body, {kap: h}))], eq(N, h)): N, nf = h, []; break
    st = at(N)
    for t in nf: st.assume(t)
    for t, _ in aux: st.assume(subst(t, {kap: N}))
    if nf and conds: record_all(st, kap, N, and_(*[not_(x) for _, _, x in conds]))
    ex.silent += 1
    try:
        latches3, exits3, rr3 = ex.region_exit(f, L, st, only_header=(len(exits) == 1 and not rr and exits[0][0] == L.header))
    finally:
        ex.silent -= 1
    out = []
    multi = len(exits3) + len(rr3) > 1
    npc = len(st.pc)
    lid = next(tm._fresh)
    for i, (a, c, es) in enumerate(exits3):
        if infeasible(es.facts()): continue
        if multi:
            tag = var('exit!%d!%d' % (lid, i), B)
            aux = [t for t, bb in es.pc[npc:]]
            es.pc = es.pc[:npc]; es._facts = None
            es.assume(tag, True)
            for t in aux: es.assume(t)
        else:
            es.pc = es.pc[:npc] + [(t, False) for t, bb in es.pc[npc:]]; es._facts = None
        tidy(ex, es, arrs)
        out.append((a, c, es))
    for i, (es, v) in enumerate(rr3):
        if infeasible(es.facts()): continue
        tag = var('ret!%d!%d' % (lid, i), B)
        aux = [t for t, bb in es.pc[npc:]]
        es.pc = es.pc[:npc]; es._facts = None
        es.assume(tag, True)
        for t in aux: es.assume(t)
        rets.append((es, v))
    return out

def _region_exit(ex, f, L, st, only_header):
    if not only_header:
        return ex.region(f, L, [(None, st)])
    exits, latch = [], []
    def route(frm, to, s):
        if to not in L.blocks: exits.append((frm, to, s))
    ex.block(f, L.header, st, route, [], skipphi=True)
    return [], exits, []
Exec.region_exit = _region_exit
Exec.require_termination = True
Exec.hints = ()

def loopline(f, L):
    for it in f.blocks[L.header].ins:
        if it.line: return it.line
    return 0

def _mentions(t, arrs):
    return any(uses_fn(t, fn) for fn in arrs)

def tidy(ex, st, arrs):
    for fn, (r, c0, c) in arrs.items():
        a = st.mem.get(r)
        if isinstance(a, Arr):
            st.mem[r] = Arr(a.v, coalesce(a.body, a.v, st.facts()))

def trip_upper(ex, phis, gv, init, lv, kap, closed, st):
    """a unit-stride w-bit counter bounds the number of iterations"""
    for it in phis:
        if it.ty[0] == 'int' and it.ty[1] in (32, 64):
            cf = closed[gv[it.res]]
            w = it.ty[1]
            d = sub(cf, subst(cf, {kap: IC(0)}))
            if kap in fv(d) and pd(d).keys() == {(kap,)}:
                RANGES[kap] = (Fraction(0), Fraction(2 ** w))
                return

# ------------------------------------------------------------------ scalars
def uses_fn(t, fn):
    return bool(subterms(t, lambda x: x.op == 'app' and x.args[0] == fn))
def uses_any(t, fns): return any(uses_fn(t, x) for x in fns)

def check_leak(t, s0, kap, loopvars):
    for x in fv(t):
        if x in loopvars: raise Unsupported('unsolved loop variable %s' % x)

def none_of(sort): return var('%none' + sort, sort)

def solve_scalars(ex, pend, closed, arrfns, kap, cl, facts_now, aux):
    """move every loop variable that has a closed form from pend to closed; True on progress"""
    any_progress = False
    for x in list(pend):
        if pend[x][1] is x:
            closed[x] = pend.pop(x)[0]; any_progress = True
    progress = True
    while pend and progress:
        progress = False
        for x in list(pend):
            i0, n = pend[x]
            n1 = cl(n)
            def free(t): return not (fv(t) & set(pend)) and not any(uses_fn(t, a) for a in arrfns)
            def done(t):
                nonlocal progress, any_progress
                closed[x] = t; del pend[x]; progress = any_progress = True
            if x.sort == B:
                if free(n1): done(ite(eq(kap, IC(0)), i0, subst(n1, {kap: sub(kap, IC(1))})))
                continue
            d = pushsub_all(n1, x)
            if x in fv(d) or not free(d):
                pass
            else:
                if subterms(d, lambda t: t.op == 'ite', under=False): d = simp(d, facts_now())
                if kap not in fv(d):
                    done(add(i0, mul(kap if x.sort == I else toR(kap), d)))
                elif x in fv(n1) or not free(n1):
                    q = fresh('q', I)
                    done(add(i0, msum(IC(0), kap, q, subst(d, {kap: q}))))
                else:
                    done(ite(eq(kap, IC(0)), i0, subst(n1, {kap: sub(kap, IC(1))})))
                continue
            # max / min folds
            m = match_fold(n1, x)
            if m and free(m[1]):
                q = fresh('q', I)
                done(mfold(m[0], i0, IC(0), kap, q, subst(simp(m[1], facts_now()), {kap: q})))
                continue
            # position of the largest value so far: keep x unless T(e) > T(x) (or >=)
            b = match_best(n1, x)
            if b and free(b[1]) and free(b[2]):
                e, T, xs, strict = b[1], b[2], b[0], b[3]
                q, w = fresh('q', I), fresh('w', I)
                eq_, ew = subst(e, {kap: q}), subst(e, {kap: w})
                m = mfold('max', subst(T, {xs: i0}), IC(0), q, w, subst(T, {xs: ew}))
                Te = subst(T, {xs: eq_})
                x_k = mfold('last', i0, IC(0), kap, q, ite((gt if strict else ge)(Te, m), eq_, none_of(x.sort)))
                # auxiliary invariants, each with its value after one more iteration (both folds extended by one
                # element, by definition)
                m_k = mfold('max', subst(T, {xs: i0}), IC(0), kap, q, Te); Tk = subst(T, {xs: e})
                upd = (gt if strict else ge)(Tk, m_k)
                aux.append((eq(subst(T, {xs: x_k}), m_k),
                            eq(ite(upd, Tk, subst(T, {xs: x_k})), ite(gt(Tk, m_k), Tk, m_k))))
                step = sub(subst(e, {kap: add(kap, IC(1))}), e); e0 = subst(e, {kap: IC(0)})
                if prove(facts_now(), and_(ge(step, IC(0)), eq(sub(e0, step), i0))):
                    # e never decreases: the kept position lies between the first and the latest one
                    rng = lambda x, k: and_(ge(x, i0), le(x, subst(e, {kap: sub(k, IC(1))})))
                    aux.append((rng(x_k, kap), rng(ite(upd, e, x_k), add(kap, IC(1)))))
                done(x_k)
                continue
            # last value
            if free(n1):
                done(ite(eq(kap, IC(0)), i0, subst(n1, {kap: sub(kap, IC(1))})))
                continue
            # conditional assignment: the value of the last iteration that assigned
            ca = match_cond(n1, x)
            if ca is not None and free(ca[0]) and free(ca[1]):
                q = fresh('q', I)
                done(mfold('last', i0, IC(0), kap, q, subst(ite(ca[0], ca[1], none_of(x.sort)), {kap: q})))
                continue
            # machine counter: linear as long as it does not wrap (checked when the invariant is shown inductive)
            u = unwrap(n1) if x.sort == I else None
            if u is not None:
                d = pushsub_all(u, x)
                if x not in fv(d) and free(d) and kap not in fv(d): done(add(i0, mul(kap, d))); continue
            # geometric  x' = c*x
            g = geometric(n1, x)
            if g is not None and free(g) and kap not in fv(g):
                done(mul(i0, mkapp('powi', R, g, kap))); continue
    return any_progress

def unwrap(t):
    """-h + mod(h + e, 2h)  ->  e  (two's complement wrap), else None"""
    d = dict(pd(t)); ms = [m for m in d if len(m) == 1 and m[0].op == 'mod' and d[m] == 1]
    if len(ms) != 1 or set(d) - {ms[0], ()}: return None
    mod = ms[0][0]
    if mod.args[1].op != 'const': return None
    M = mod.args[1].args[0]; h = -d.get((), 0)
    if h not in (0, M / 2): return None
    e = {m: (c - (h if m == () else 0)) % M for m, c in pd(mod.args[0]).items()}
    if () not in e and h: e[()] = (-h) % M
    return frompd({m: (c - M if c >= M / 2 else c) for m, c in e.items() if c}, I)

def match_cond(n, x):
    """n == ite(c, e, x): (c, e) with x not free in c, e"""
    if n.op != 'ite': return None
    c, a, b = n.args
    if x in fv(c): return None
    if b is x:
        if a is x or x not in fv(a): return (c, a)
        r = match_cond(a, x)
        return (and_(c, r[0]), r[1]) if r else None
    if a is x:
        if x not in fv(b): return (not_(c), b)
        r = match_cond(b, x)
        return (and_(not_(c), r[0]), r[1]) if r else None
    return None

def geometric(n, x):
    if x.sort != R: return None
    d = pd(n)
    if len(d) != 1: return None
    (m, c), = d.items()
    if m.count(x) != 1: return None
    mm = list(m); mm.remove(x)
    t = frompd({tuple(mm): c}, R)
    return None if x in fv(t) else t

def pushsub(n, x):
    if n.op == 'ite': return ite(n.args[0], pushsub(n.args[1], x), pushsub(n.args[2], x))
    return sub(n, x)

def match_best(n, x):
    """n == ite(T(e) <= T(x), x, e) (or <): (placeholder of T, e, T, whether equal values keep x).
    The value T(x) of the kept position is then the running maximum of T(init), T(e_0), T(e_1) ..."""
    if n.op != 'ite' or x.sort != I: return None
    c, a, b = n.args
    if b is x: c, a, b = not_(c), b, a
    if a is not x or x in fv(b) or x not in fv(c): return None
    for strict, cc in ((True, c), (False, not_(c))):
        p = solve._lep(cc)
        if p is None or p.sort != R: continue
        if not strict: p = neg(p)           # not (0 <= -p')  i.e.  p < 0 keeps x
        d = pd(p)
        own = frompd({m: k for m, k in d.items() if any(x in fv(y) for y in m)}, R)
        rest = sub(p, own)
        xs = fresh('x', I)
        T = subst(neg(own), {x: xs})
        if sub(rest, subst(T, {xs: b})) is RC(0) or prove_eq(rest, subst(T, {xs: b}), []): return xs, b, T, strict
    return None

def match_fold(n, x):
    """n == max(x, t) / min(x, t)"""
    if n.op != 'ite' or x.sort != R and x.sort != I: return None
    c, a, b = n.args
    if x not in (a, b): return None
    t = b if a is x else a
    if x in fv(t): return None
    if t.op == 'const' and False: return None
    # c true -> a
    lo = [le(x, t), lt(x, t)]; hi = [le(t, x), lt(t, x)]
    nc = not_(c)
    if a is x:
        if c in hi or nc in lo: return ('max', t)
        if c in lo or nc in hi: return ('min', t)
    else:
        if c in lo or nc in hi: return ('max', t)
        if c in hi or nc in lo: return ('min', t)
    return None

def replace_arrays(t, closedarr, kap):
    if not closedarr: return t
    def fn(x):
        if x.op == 'app' and x.args[0] in closedarr:
            v, body = closedarr[x.args[0]]
            return subst(body, {v: x.args[1]})
        return x
    if not uses_any(t, closedarr): return t
    return map_terms(t, fn)

# ------------------------------------------------------------------ arrays
def pieces(body, v, isdef):
    """body as ordered list [(cond, value)] + default; conds mention v, values do not branch on v"""
    if isdef(body): return [], body
    if body.op == 'ite':
        c, a, b = body.args
        if v in fv(c):
            la, da = pieces(a, v, isdef)
            lb, db = pieces(b, v, isdef)
            out = [(and_(c, x), y) for x, y in la]
            if da is not None and not isdef(da): out.append((c, da))
            out += [(and_(not_(c), x), y) for x, y in lb]
            if db is not None and not isdef(db): out.append((not_(c), db))
            return out, None
        la, da = pieces(a, v, isdef)
        lb, db = pieces(b, v, isdef)
        if not la and not lb: return ([(TRUE, body)], None)
        out = []
        used = set()
        for ca, va in la:
            for j, (cb, vb) in enumerate(lb):
                if ca is cb:
                    out.append((ca, ite(c, va, vb))); used.add(j); break
            else: out.append((ca, ite(c, va, DEFAULT)))
        for j, (cb, vb) in enumerate(lb):
            if j not in used: out.append((cb, ite(c, DEFAULT, vb)))
        if (da is not None and not isdef(da)) or (db is not None and not isdef(db)): raise Unsupported('array update shape')
        return out, None
    return [(TRUE, body)], None

def overlay(t, under, self_v):
    """t, with `under` where t leaves the old element"""
    if t is self_v: return under
    if t.op == 'ite': return ite(t.args[0], overlay(t.args[1], under, self_v), overlay(t.args[2], under, self_v))
    return t
DEFAULT_I = var('%default%I', I)
DEFAULT_R = var('%default%R', R)
DEFAULT = None

def windows(cond, v):
    """cond -> (lo, hi) when it is lo<=v<hi or v==e (ignoring conjuncts that only exclude earlier windows)"""
    lo = hi = None
    extra = []
    cs = cond.args if cond.op == 'and' else (cond,)
    for c in cs:
        if c.op == 'eq0':
            d = pd(c.args[0]); k = d.get((v,))
            if k in (1, -1) and v not in fv(sub(c.args[0], tm.scale(v, k))):
                e = tm.scale(sub(c.args[0], tm.scale(v, k)), -k)
                lo, hi = e, add(e, IC(1)); continue
        p = solve._lep(c)
        if p is not None and p.sort == I:
            k = pd(p).get((v,))
            rest = sub(p, tm.scale(v, k)) if k else None
            if k == 1 and v not in fv(rest) and hi is None: hi = add(neg(rest), IC(1)); continue
            if k == -1 and v not in fv(rest) and lo is None: lo = rest; continue
        extra.append(c)
    if lo is None or hi is None: return None
    return lo, hi, extra

def solve_array(ex, fn, r, v, body, c0, kap, facts):
    global DEFAULT
    self_v = app(fn, r.sort, v)
    M0 = c0.at(v)
    if not uses_fn(body, fn) and kap not in fv(body):
        # same content written every iteration
        return v, ite(eq(kap, IC(0)), M0, body)
    DEFAULT = self_v
    isdef = lambda t: t is self_v
    ps, d = pieces(body, v, isdef)
    if not ps: return v, M0
    # reads of the element being written, spelled with another index term
    if any(x is not self_v for x in subterms(body, lambda x: x.op == 'app' and x.args[0] == fn)):
        ps = [(c, self_reads(fn, self_v, v, c, val, facts)) for c, val in ps]
        body = self_v
        for c, val in reversed(ps): body = ite(c, overlay(val, body, self_v), body)
    reads = [x for x in subterms(body, lambda x: x.op == 'app' and x.args[0] == fn)]
    onlyself = all(x is self_v for x in reads)
    rf = facts + [ge(v, IC(0))]
    if r.size is not None: rf.append(lt(tm.scale(v, r.es), r.size))
    # --- accumulation: windows independent of the iteration
    if onlyself:
        D = pushsub_all(body, self_v)
        if not uses_fn(D, fn) and all(kap not in fv(c) for c, _ in ps):
            q = fresh('q', I)
            return v, push_sum(D, v, q, kap, M0)
    # --- scatter
    ws = []
    for c, val in [(c2, val) for c, val in ps for c2 in (c.args if c.op == 'or' else (c,))]:
        w = windows(c, v)
        if w is None:
            raise Unsupported('array update condition %s' % pp(c)[:200])
        lo, hi, extra = w
        extra = [e for e in extra if not prove(rf + [ge(v, lo), lt(v, hi)], e)]
        if prove(facts, le(hi, lo)): continue
        for i, (l2, h2, v2) in enumerate(ws):
            if l2 is lo and h2 is hi:
                ws[i] = (lo, hi, ite(and_(*extra), overlay(val, v2, self_v), v2) if extra else overlay(val, v2, self_v)); break
        else: ws.append((lo, hi, ite(and_(*extra), val, self_v) if extra else val))
    if not ws: return v, M0
    # merge adjacent windows of one iteration
    ws = merge_windows(ws, v, facts)
    if onlyself and all(kap not in fv(lo) and kap not in fv(hi) for lo, hi, _ in ws):
        D = pushsub_all(body, self_v)
        if not uses_fn(D, fn):
            q = fresh('q', I); return v, push_sum(D, v, q, kap, M0)
        last = all(not uses_fn(val, fn) for _, _, val in ws)
        if last:
            out = M0
            for lo, hi, val in ws:
                out = ite(and_(ge(kap, IC(1)), window(v, lo, hi)), subst(val, {kap: sub(kap, IC(1))}), out)
            return v, out
    if len(ws) > 1:
        # single elements per iteration, constant stride, values that do not depend on the array: candidate
        # closed form (the inductiveness check decides)
        out = M0; k1 = add(kap, IC(1))
        for lo, hi, val in ws:
            st_ = sub(subst(lo, {kap: k1}), lo)
            if not prove(facts, eq(sub(hi, lo), IC(1))) or st_.op != 'const' or st_.args[0] == 0: break
            w = written(subst(val, {v: lo}), app(fn, r.sort, lo))
            if w is None or w[1] is None: break
            cond, x = w
            cond = push_eq(cond, facts)
            if uses_fn(x, fn) or uses_fn(cond, fn): break
            d = sub(v, subst(lo, {kap: IC(0)})); sc = st_.args[0]
            if sc < 0: d, sc = neg(d), -sc
            kk = intdiv(d, IC(sc))
            if sc != 1: cond = and_(eq(intmod(d, IC(sc)), IC(0)), cond)
            out = ite(and_(ge(kk, IC(0)), lt(kk, kap), subst(cond, {kap: kk})), subst(x, {kap: kk}), out)
        else: return v, out
    if len(ws) == 1:
        lo, hi, val = ws[0]
        k1 = add(kap, IC(1))
        lo1, hi1 = subst(lo, {kap: k1}), subst(hi, {kap: k1})
        s = sub(lo1, lo); width = sub(hi, lo)
        if kap in fv(s): raise Unsupported('non-linear stride of array windows %s | %s' % (pp(lo), pp(hi)))
        asc = prove(facts, le(hi, lo1)); desc = not asc and prove(facts, le(hi1, lo))
        if not asc and not desc: raise Unsupported('array windows of different iterations overlap [%s,%s) stride %s := %s' % (pp(lo), pp(hi), pp(s), pp(val)))
        # reads of the array itself
        def self_read(x):
            if x.op == 'app' and x.args[0] == fn:
                if x.args[1] is v: return M0
                idx = x.args[1]
                # the location must not have been written by earlier iterations
                if asc: written = and_(ge(idx, subst(lo, {kap: IC(0)})), lt(idx, lo))
                else: written = and_(ge(idx, hi), lt(idx, subst(hi, {kap: IC(0)})))
                if prove(rf + [ge(v, lo), lt(v, hi)], not_(written)): return c0.at(idx)
                raise Unsupported('loop reads elements written by earlier iterations of %s' % r.name)
            return x
        val = map_terms(val, self_read)
        lo0 = subst(lo, {kap: IC(0)}); hi0 = subst(hi, {kap: IC(0)})
        if kap in fv(val):
            wd = width
            if prove(facts, eq(wd, IC(1))) and s.op == 'const' and s.args[0] in (1, -1):
                kk = tm.scale(sub(v, lo0), s.args[0])
            elif asc: kk = intdiv(sub(v, lo0), s)
            else: kk = intdiv(sub(sub(hi0, IC(1)), v), neg(s))
            val = subst(val, {kap: kk})
        if asc: cover = window(v, lo0, lo)
        else: cover = window(v, hi, hi0)
        if not (s is width or prove(facts, eq(s, width)) or prove(facts, eq(neg(s), width))):
            # gaps between the windows
            if asc: cover = and_(cover, lt(intmod(sub(v, lo0), s), width))
            else: raise Unsupported('descending windows with gaps')
        return v, ite(cover, val, M0)
    raise Unsupported('several array windows per iteration in %s: %s' % (r.name, [(pp(a), pp(b), pp(c)) for a, b, c in ws][:4]))

def rebuild_with(t, x, y):
    def go(z): return y if z is x else rebuild(z, go) if z.op not in ('const', 'var', 'sum', 'fold') else z
    return go(t)
def push_eq(t, facts, depth=0):
    """comparisons with conditional terms as conditions on the cases"""
    if t.op == 'not': return not_(push_eq(t.args[0], facts, depth))
    if t.op in ('and', 'or'):
        out, f = [], list(facts)
        for x in t.args:
            y = push_eq(x, f, depth); out.append(y); f = f + [y if t.op == 'and' else not_(y)]
        return and_(*out) if t.op == 'and' else or_(*out)
    if prove(facts, t): return TRUE
    if prove(facts, not_(t)): return FALSE
    if t.op in ('eq0', 'le0') and depth < 8:
        its = [x for x in subterms(t.args[0], lambda x: x.op == 'ite')]
        its = [x for x in its if not any(y is not x and x in subterms(y, lambda z: z is x) for y in its)]
        if its:
            x = its[0]; c = push_eq(x.args[0], facts, depth + 1)
            a, b = (rebuild_with(t, x, x.args[i]) for i in (1, 2))
            a = FALSE if c is FALSE else push_eq(a, facts + [c], depth + 1); b = FALSE if c is TRUE else push_eq(b, facts + [not_(c)], depth + 1)
            return or_(and_(c, a), and_(not_(c), b))
    return t
def written(t, self_t):
    """(condition, value) when t is the value under the condition and the old element otherwise"""
    if t is self_t: return FALSE, None
    if t.op == 'ite':
        a, b = written(t.args[1], self_t), written(t.args[2], self_t)
        if a is None or b is None: return None
        if a[1] is not None and b[1] is not None and a[1] is not b[1]: return None
        c = t.args[0]
        return or_(and_(c, a[0]), and_(not_(c), b[0])), a[1] if a[1] is not None else b[1]
    return TRUE, t

def self_reads(fn, self_v, v, c, val, facts):
    ff = None
    def f(x):
        nonlocal ff
        if x.op == 'app' and x.args[0] == fn and x.args[1] is not v:
            if ff is None: ff = facts + [c]
            if prove(ff, eq(x.args[1], v)): return self_v
        return x
    return map_terms(val, f)

def lift_ite(t, want):
    """first ite satisfying want inside the polynomial structure of t, or None"""
    if t.op == 'ite': return t if want(t) else None
    for m in pd(t):
        for a in m:
            if a.op == 'ite' and want(a): return a
    return None

def repl_atom(t, a, b):
    return tm.replace_terms(t, {a: b})

def pushsub_all(body, x):
    if body.op == 'ite': return ite(body.args[0], pushsub_all(body.args[1], x), pushsub_all(body.args[2], x))
    a = lift_ite(body, lambda t: bool(subterms(t, lambda y: y is x)))
    if a is not None:
        return ite(a.args[0], pushsub_all(repl_atom(body, a, a.args[1]), x), pushsub_all(repl_atom(body, a, a.args[2]), x))
    return sub(body, x)

def free_cond(t, kap):
    """an atomic ite condition inside t that does not mention kap"""
    for x in subterms(t, lambda x: x.op == 'ite' and kap not in fv(x.args[0]), under=False):
        return x.args[0]
    for x in subterms(t, lambda x: x.op == 'ite', under=False):
        c = x.args[0]
        if c.op in ('and', 'or'):
            for y in c.args:
                if kap not in fv(y): return y
    return None

def push_sum(D, v, q, kap, M0):
    """M0 + SUM_{q<kap} D, keeping v-windows outside the SUM"""
    if D.op == 'const' and D.args[0] == 0: return M0
    c = free_cond(D, kap)
    if c is not None:
        return ite(c, push_sum(solve._assume(D, c, True), v, q, kap, M0), push_sum(solve._assume(D, c, False), v, q, kap, M0))
    return add(M0, msum(IC(0), kap, q, subst(D, {kap: q})))

def merge_windows(ws, v, facts):
    ch = True
    ws = list(ws)
    while ch and len(ws) > 1:
        ch = False
        for i in range(len(ws)):
            for j in range(len(ws)):
                if i == j: continue
                lo1, hi1, a = ws[i]; lo2, hi2, b = ws[j]
                if not (hi1 is lo2 or prove(facts, eq(hi1, lo2))): continue
                if a is b: g = a
                else: g = unify_windows(a, b, v, lo1, hi1, lo2, hi2)
                if g is None: continue
                if not (prove(facts, le(lo1, hi1)) and prove(facts, le(lo2, hi2))): continue
                ws = [w for k, w in enumerate(ws) if k not in (i, j)] + [(lo1, hi2, g)]
                ch = True; break
            if ch: break
    return ws

def unify_windows(a, b, v, lo1, hi1, lo2, hi2):
    n1 = sub(hi1, lo1); n2 = sub(hi2, lo2)
    if n1.op == n2.op == 'const' and n1.args[0] == 1 and n2.args[0] == 1:
        a1 = subst(a, {v: lo1}); b1 = subst(b, {v: lo2})
        return unify_lanes([a1, b1], v, lo1)
    # a may be generalisable at its own single element
    if n2.op == 'const' and n2.args[0] == 1:
        if subst(a, {v: lo2}) is subst(b, {v: lo2}): return a
    if n1.op == 'const' and n1.args[0] == 1:
        if subst(b, {v: lo1}) is subst(a, {v: lo1}): return b
    return None

def coalesce(body, v, facts):
    """merge adjacent windows with equal values at top level of an array body"""
    global DEFAULT
    chain = []
    t = body
    while t.op == 'ite' and v in fv(t.args[0]):
        c = t.args[0]
        w = [windows(x, v) for x in (c.args if c.op == 'or' else (c,))]
        if any(x is None or x[2] for x in w): break
        val = t.args[1]
        for x in w:
            vv = val
            if subterms(val, lambda y: y.op == 'ite' and v in fv(y.args[0]), under=False):
                vv = solve.simp(val, list(facts) + [window(v, x[0], x[1])])
            chain.append((x[0], x[1], vv))
        t = t.args[2]
    if len(chain) < 2: return body
    # order matters only when windows overlap: require pairwise disjointness for merging
    new = merge_windows(chain, v, facts)
    if len(new) == len(chain): return body
    for i in range(len(chain)):
        for j in range(i):
            a, b = chain[i], chain[j]
            if not (prove(facts, le(a[1], b[0])) or prove(facts, le(b[1], a[0]))): return body
    out = t
    for lo, hi, val in reversed(new): out = ite(window(v, lo, hi), val, out)
    return out

# ------------------------------------------------------------------ trip counts
FORALL = {}        # tag -> (variable, upper bound, body): for all 0 <= variable < upper bound: body
def record_all(st, v, hi, body):
    t = var('all!%d' % next(tm._fresh), B); FORALL[t] = (v, hi, body); st.assume(t)
def instantiate(st, *ts):
    """add the instances at the given terms of the quantified facts recorded for finished loops"""
    have = set()
    for x in st.facts(): have |= fv(x)
    for t in list(FORALL):
        if t in have:
            v, hi, body = FORALL[t]
            for x in ts: st.assume(or_(not_(t), lt(x, IC(0)), ge(x, hi), subst(body, {v: x})))

def auto_instantiate(st, goals, limit=16):
    have = set()
    for x in st.facts(): have |= fv(x)
    apps = {}
    for g in goals:
        for t in subterms(g, lambda t: t.op == 'app'):
            for a in t.args[1:]:
                if isinstance(a, T) and a.sort == I and len(t.args) == 2: apps.setdefault(t.args[0], []).append(a)
    n = 0
    for t in list(FORALL):
        if t not in have: continue
        v, hi, body = FORALL[t]; at = []
        for x in subterms(body, lambda x: x.op == 'app'):
            if len(x.args) != 2 or not isinstance(x.args[1], T) or v not in fv(x.args[1]): continue
            c = sub(x.args[1], v)
            if v in fv(c): continue
            for a in apps.get(x.args[0], ()):
                i = sub(a, c)
                if i not in at and len(at) < limit: at.append(i)
        for i in at: st.assume(or_(not_(t), lt(i, IC(0)), ge(i, hi), subst(body, {v: i}))); n += 1
    return n

def exit_index(cs, kap):
    """a when the exit condition is kap == a"""
    if cs.op == 'eq0' and cs.args[0].sort == I:
        d = pd(cs.args[0]); k = d.get((kap,))
        if k and abs(k) == 1 or k and all(c % k == 0 for c in d.values()):
            if not any(kap in fv(x) for m in d if m != (kap,) for x in m): return tm.scale(sub(cs.args[0], tm.scale(kap, k)), Fraction(-1) / k)

def trip_count(ex, conds, kap, facts, s0):
    """(N, facts about N, termination established)"""
    lin = None
    for frm, to, c in conds:
        cs = c
        p = solve._lep(cs)
        if p is not None and p.sort == I:
            d = pd(p)
            s = frompd({tuple(x for x in m if x is not kap) if m.count(kap) == 1 else ('bad',): co for m, co in d.items() if kap in m}, I) if all(m.count(kap) <= 1 for m in d if kap in m) else None
            if s is not None and not any(kap in fv(x) for m in d for x in m if x is not kap):
                a = frompd({m: co for m, co in d.items() if kap not in m}, I)
                # exit iff a + s*kap <= 0  ; terminates when s<0
                if prove(facts, lt(s, IC(0))): lin = ('le', a, s, c)
        elif cs.op == 'eq0' and cs.args[0].sort == I:
            a = exit_index(cs, kap)
            if a is not None: lin = lin or ('eq', a, None, c)
    single = len(conds) == 1
    if single and lin:
        if lin[0] == 'le':
            _, a, s, c = lin
            # exit iff kap*(-s) >= a ; N = max(0, ceil(a/(-s)))
            st = neg(s)
            if st.op == 'const' and st.args[0] == 1: n = a
            elif st.op == 'const': n = intdiv(add(a, IC(st.args[0] - 1)), st)
            else: n = None
            if n is not None:
                if prove(facts, ge(n, IC(0))): return n, [], True
                if prove(facts, le(n, IC(0))): return IC(0), [], True
                return ite(ge(n, IC(0)), n, IC(0)), [], True
        else:
            _, a, _, c = lin
            if prove(facts, ge(a, IC(0))): return a, [], True
    N = fresh('N', I)
    RANGES[N] = (Fraction(0), RANGES.get(kap, (0, Fraction(2 ** 63)))[1])
    nf = [ge(N, IC(0))]
    prev = [not_(subst(c, {kap: sub(N, IC(1))})) for _, _, c in conds]
    nf.append(or_(eq(N, IC(0)), and_(*prev)))
    term = bool(lin) and (lin[0] == 'le' or prove(facts, ge(lin[1], IC(0))))
    if not term:
        # some exit condition is forced once a linear atom holds
        allc = or_(*[c for _, _, c in conds])
        seen = set()
        for c in subterms(allc, lambda t: t.op in ('le0', 'not', 'eq0'), under=False):
            for c2 in (c, not_(c)):
                if c2 in seen: continue
                seen.add(c2)
                p = solve._lep(c2)
                if p is None or p.sort != I or kap not in fv(p): continue
                a0 = subst(p, {kap: IC(0)}); s = sub(subst(p, {kap: IC(1)}), a0)
                if add(a0, mul(s, kap)) is not p or not prove(facts, lt(s, IC(0))): continue
                if prove(facts + [c2], allc): term = True; break
            if term: break
    return N, nf, term
