"""Step invariants: loops whose body calls contracted functions with ghost state.  At the loop
head the tracked state is an arbitrary value of the specification's state (init / preservation
are obligations), every other modified location is a fresh value or, when that is inductive,
one of the candidate expressions (Houdini)."""
from terms import *
import terms as tm
import solve, loops, execu, heap
from solve import prove, prove_eq, RANGES, infeasible
from execu import *
from fractions import Fraction

def loop_calls(ex, f, blocks, names, seen=None):
    """does the code (transitively through inlined functions) call one of names"""
    seen = seen if seen is not None else set()
    for b in blocks:
        for it in f.blocks[b].ins:
            if it.op != 'call' or not it.x or it.x[0] != 'glob': continue
            n = it.x[1].strip('"')
            if n in names: return True
            if n in ex.contracts: continue
            g, m = ex.find(n, ex.curmod)
            if g is None or g in seen: continue
            seen.add(g)
            if loop_calls(ex, g, list(g.blocks), names, seen): return True
    return False

class StepLoop:
    """calls: names of contracted functions that mark the loop.  tracked: {Region: kind} handled by havoc().
    havoc(ex, st): set tracked state and ghosts to the symbolic pre-step state, with invariant facts
    entry(ex, st, line): obligations that the state before the loop is the initial state
    step(ex, st, line): obligations that the state at the latch is one step further
    cands(ex, st, sort): candidate terms for untracked locations at the head
    cands_next(ex, st): the same candidates in the state at the latch"""
    def __init__(self, calls, tracked, havoc, entry, step, cands=None, marks=()):
        self.marks = list(marks)       # terms used as candidate bounds of loop-carried integers
        self.calls, self.tracked, self.havoc, self.entry, self.step = set(calls), tracked, havoc, entry, step
        self.cands = cands or (lambda ex, st: [])
        self.hits = 0
        self.cases, self.pick_case = [None], None      # case split of the state at the loop head; exits of one case only
        self.bound_cands = False       # bounds also for locations that equal a candidate
    def split(self, ex, st): return [st]           # the cases a latch state belongs to (sets st.ghost['case'])
    def __call__(self, ex, f, L, phis, init, s0, rets):
        if not loop_calls(ex, f, L.blocks, self.calls): return None
        return step_loop(self, ex, f, L, phis, init, s0, rets)

def resolve(v, st):
    """the only possible alternative of a conditional pointer"""
    la = heap.feasible(st, v)
    if len(la) != 1: raise Unsupported('loop-carried conditional pointer %s' % [(str(c)[:200], str(q)) for c, q in la])
    return la[0][1]

def tracked_cell(hook, r, off): return (r, off) in hook.tracked or r in hook.tracked

def step_loop(hook, ex, f, L, phis, init, s0, rets):
    line = loops.loopline(f, L)
    hook.hits += 1
    if hasattr(hook, 'begin'): hook.begin(s0)
    if not ex.silent: hook.entry(ex, s0, line)
    modarr, modcell = set(), {}        # Region ; (Region, off) -> size
    cand = {}                          # location -> index of the candidate, or None = fresh
    gens = {}
    ncand = len(hook.cands(ex, s0))
    c0s = hook.cands(ex, s0)
    shead = []
    init = {k: resolve(v, s0) if isinstance(v, PIte) else v for k, v in init.items()}
    def locinit(loc):
        if loc[0] == 'phi': return init[loc[1]]
        e = s0.mem[loc[1]].get(loc[2]); return e[1] if e else None
    def fits(i, es):
        """offsets of pointers into arrays are multiples of the element size"""
        if es == 1: return True
        if not shead:
            st = s0.fork(); shead.append(st)
            if hook.cases[0] is not None: st.ghost['case'] = IC(hook.cases[0])
            hook.havoc(ex, st)
        t = hook.cands(ex, shead[0])[i]
        return t.sort == I and all(c % es == 0 for c in pd(t).values())
    def pick(loc, st, v0, es=1):
        """value at the loop head"""
        if isinstance(v0, tuple): return tuple(pick(loc + (i,), st, x) for i, x in enumerate(v0))
        if isinstance(v0, PIte): v0 = resolve(v0, s0)
        if isinstance(v0, Ptr) and pcand(loc, v0) is not None: return hook.pcands(ex, st)[pc[loc]]
        if isinstance(v0, Ptr):
            return Ptr(v0.base, pick(loc + ('off',), st, v0.off, getattr(v0.base, 'es', 1) or 1)) if v0.off.op != 'const' or loc + ('off',) in cand or True else v0
        if loc not in cand:
            cand[loc] = None; loc0[loc] = (v0, es)
            for i in range(ncand):
                if fits(i, es) and c0s[i].sort == v0.sort and prove_eq(v0, c0s[i], s0.facts()): cand[loc] = i; break
        if cand[loc] is not None:
            x = hook.cands(ex, st)[cand[loc]]
            if hook.bound_cands and x.sort == I: invs(loc, v0, x, st)
            return x
        if loc not in gens:
            x = fresh('h', v0.sort)
            if v0.sort == I: RANGES[x] = (Fraction(-2 ** 63), Fraction(2 ** 63 - 1))
            gens[loc] = x
        if v0.sort == I: invs(loc, v0, gens[loc], st)
        return gens[loc]
    loc0 = {}
    pc = {}                            # location -> index of the pointer candidate
    def pcand(loc, v0):
        if loc not in pc:
            pc[loc] = None
            for i, q in enumerate(hook.pcands(ex, s0) if hasattr(hook, 'pcands') else []):
                if q.base is v0.base and prove_eq(q.off, v0.off, s0.facts()): pc[loc] = i; break
        return pc[loc]
    inv = {}                           # location -> surviving candidate bounds [(side, term)]
    def invs(loc, v0, x, st):
        if loc not in inv:
            inv[loc] = []
            for m in [v0, IC(0), IC(1)] + hook.marks:
                for side in ('ge', 'le'):
                    if side == 'le' and m.op == 'const': continue
                    if (side, m) not in inv[loc] and prove(s0.facts(), ge(v0, m) if side == 'ge' else le(v0, m)): inv[loc].append((side, m))
        for side, m in inv[loc]: st.assume(ge(x, m) if side == 'ge' else le(x, m))
    def keep(loc, st, v):
        ok = True
        for p in list(inv.get(loc, ())):
            if not prove(st.facts(), ge(v, p[1]) if p[0] == 'ge' else le(v, p[1])): inv[loc].remove(p); ok = False
        return ok
    def check(loc, st, v):
        """is the candidate preserved; drop it when not"""
        if isinstance(v, tuple): return all([check(loc + (i,), st, x) for i, x in enumerate(v)])
        if isinstance(v, PIte): v = resolve(v, st)
        if isinstance(v, Ptr) and pc.get(loc) is not None:
            q = hook.pcands(ex, st)[pc[loc]]
            if q.base is v.base and prove_eq(q.off, v.off, st.facts()): return True
            pc[loc] = None; return False
        if isinstance(v, Ptr): return check(loc + ('off',), st, v.off)
        i = cand.get(loc)
        if i is None: return keep(loc, st, v) if isinstance(v, T) and v.sort == I else True
        if prove_eq(v, hook.cands(ex, st)[i], st.facts()): return keep(loc, st, v) if hook.bound_cands and v.sort == I else True
        # the next candidate with the same initial value, if there is one
        v0, es = loc0.get(loc, (None, 1)); cand[loc] = None
        if v0 is not None:
            for j in range(i + 1, ncand):
                if fits(j, es) and c0s[j].sort == v0.sort and prove_eq(v0, c0s[j], s0.facts()): cand[loc] = j; break
        return False
    def head(case=None):
        st = s0.fork()
        if case is not None: st.ghost['case'] = IC(case)
        hook.havoc(ex, st)
        for it in phis:
            v = pick(('phi', it.res), st, init[it.res])
            if it.ty[0] == 'int' and isinstance(v, T) and v.op == 'var' and it.ty[1] > 1:
                w = it.ty[1]; RANGES[v] = (Fraction(-2 ** (w - 1)), Fraction(2 ** (w - 1) - 1)); st.assume(and_(ge(v, IC(-2 ** (w - 1))), le(v, IC(2 ** (w - 1) - 1))))
            st.env[it.res] = v
        for r in modarr:
            v = fresh('r', I); st.mem[r] = Arr(v, app('H%d_%s' % (next(tm._fresh), r.name), r.sort, v))
        for (r, off), sz in modcell.items():
            v0 = locinit(('cell', r, off))
            if v0 is None: continue
            v = pick(('cell', r, off), st, v0)
            c = dict(st.mem[r]); c[off] = (sz, v); st.mem[r] = c
            if isinstance(v, T) and v.op == 'var' and v.sort == I:
                RANGES[v] = (Fraction(-2 ** (8 * sz - 1)), Fraction(2 ** (8 * sz - 1) - 1)); st.assume(and_(ge(v, IC(-2 ** (8 * sz - 1))), le(v, IC(2 ** (8 * sz - 1) - 1))))
        return st
    for attempt in range(12):
      changed = again = False
      for case in hook.cases:
        g = head(case)
        pre = dict(g.mem)
        rr = []
        ex.silent += 1
        try: latches, exits, rr = ex.region(f, L, [(None, g)])
        finally: ex.silent -= 1
        if loops.resort(ex, s0): again = True; break
        for frm, ls in [(frm, y) for frm, x in latches for y in hook.split(ex, x)]:
            if infeasible(ls.facts()): continue
            if hasattr(hook, 'latch_ghost'): hook.latch_ghost(ls)
            lv = loops.latch_values(ex, f, phis, frm, ls)
            for it in phis:
                if isinstance(lv[it.res], PIte): lv[it.res] = resolve(lv[it.res], ls)
                if pc.get(('phi', it.res)) is None and not loops.sameshape(init[it.res], lv[it.res]): raise Unsupported('loop-carried value changes shape')
                if not check(('phi', it.res), ls, lv[it.res]): changed = True
            for r, c in ls.mem.items():
                p = pre.get(r)
                if p is None or r in hook.tracked: continue
                if isinstance(c, Arr):
                    if r in modarr: continue
                    cb = c.body if c.v is p.v else subst(c.body, {c.v: p.v})
                    if cb is not p.body: modarr.add(r); changed = True
                else:
                    for off, (sz, v) in c.items():
                        if (r, off) in hook.tracked: continue
                        if (r, off) in modcell:
                            if not check(('cell', r, off), ls, v): changed = True
                            continue
                        pv = p.get(off)
                        if pv is None:
                            if r.stack: continue        # written before read in every iteration, or undef
                            raise Unsupported('loop writes an unknown cell of %s' % r.name)
                        if not veq(pv[1], v): modcell[(r, off)] = sz; changed = True
      if not changed and not again: break
    else: raise Unsupported('loop frame does not stabilise')
    # final run with obligations
    out = []
    for case in hook.cases:
        if hook.pick_case is not None and case != hook.pick_case: continue      # the other cases are discharged by jobs of their own
        st = head(case)
        g0 = {it.res: st.env[it.res] for it in phis}
        for r, off in modcell:
            if off in st.mem[r]: g0[(r, off)] = st.mem[r][off][1]
        latches, exits, rr = ex.region(f, L, [(None, st)])
        for frm, ls in [(frm, y) for frm, x in latches for y in hook.split(ex, x)]:
            if infeasible(ls.facts()): continue
            if hasattr(hook, 'latch_ghost'): hook.latch_ghost(ls)
            if hasattr(hook, 'progress') and not ex.silent:
                lv = {k: resolve(v, ls) if isinstance(v, PIte) else v for k, v in loops.latch_values(ex, f, phis, frm, ls).items()}
                for r, off in modcell:
                    v = ls.mem[r][off][1]; lv[(r, off)] = resolve(v, ls) if isinstance(v, PIte) else v
                hook.progress(ex, ls, g0, lv, line)
            if not ex.silent: hook.step(ex, ls, line)
        rets.extend(rr)
        out += [(a, c, s) for a, c, s in exits if not infeasible(s.facts())]
    return out
