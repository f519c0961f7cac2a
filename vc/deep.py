"""Networks with a symbolic number of layers whose sizes, parameters and vectors are all visible.

Specification symbols, all indexed by the layer: N(k) size of vector k (0 = input, k = output of
layer k-1), W(k, i) and B(k, i) parameters of layer k, a(k, i) vector k, delta(k, i) gradient with
respect to the pre-activation of layer k; OFF(k) is the place of layer k in the parameter vector,
SUMN(k) = N(1) + .. + N(k).  Their defining equations are used instance by instance.

Arrays of pointers to vectors are filled by loops of the code; where each vector was placed is read
off the loop as a recurrence F(j+1) = step(F(j), j), whose properties (order, distance, alignment,
total size) are then established by induction."""
from nets import *
from nets import _ptrs, _rd, _wr, _sep, _content, _update
import os, nets, steps, loops, blocks, heap
from blocks import iarr, I64
from fractions import Fraction

def resolved(k):
    """conditional pointers are resolved before the contract is applied"""
    def g(ex, f, it, st, a):
        return k(ex, f, it, st, [steps.resolve(x, st) if isinstance(x, PIte) else x for x in a])
    return g

class PtrLog:
    """local array of pointers: which[j] is the number of the object pointed into (0: never stored,
    -1: null), off[j] the offset in bytes"""
    def __init__(self, D, st, name, n):
        self.D = D; self.reg = Region(name, 'cells', tm.scale(n, 8), align=16, stack=True)
        self.reg.es = 8; self.reg.stepped = True; self.reg.handler = self; st.mem[self.reg] = {}
        self.n = n; self.bases = []
        self.which = iarr(st, name + '_which', n, lambda v: IC(0)); self.off = iarr(st, name + '_off', n, lambda v: IC(0))
        D.logs.append(self)
    def num(self, base):
        if base is None: return -1
        if base not in self.bases: self.bases.append(base)
        return self.bases.index(base) + 1
    def store(self, ex, st, ty, v, p, line):
        k = ex.elemidx(p.off, 8)
        if k is None: raise Unsupported('access to the array of pointers %s' % self.reg.name)
        w = o = None
        for c, q in reversed(alts(v)):
            x, y = IC(self.num(q.base)), q.off
            w, o = (x, y) if w is None else (ite(c, x, w), ite(c, y, o))
        if self.D.recording is not None: self.D.recording.append((self, k))
        ex.store(st, I64, w, Ptr(self.which, tm.scale(k, 8)), 8, line); ex.store(st, I64, o, Ptr(self.off, tm.scale(k, 8)), 8, line)
    def load(self, ex, st, ty, p, line):
        k = ex.elemidx(p.off, 8)
        if k is None or ty[0] != 'ptr': raise Unsupported('access to the array of pointers %s' % self.reg.name)
        r = self.at(ex, st, k)
        if r is None: ex.oblige(st, line, 'bounds', FALSE, 'element %s of %s was stored before' % (pp(k)[:60], self.reg.name)); raise Unsupported('unknown pointer')
        return r
    def at(self, ex, st, k):
        """the pointer at index k; None when there may be none"""
        f = st.facts(); w = solve.simp(st.mem[self.which].at(k), f)
        ls = leaves(w); res = []
        for x in ls:
            if x.op != 'const': return None
            c = eq(w, x); fc = f + [c]
            if len(ls) > 1 and solve.infeasible(fc): continue
            i = int(cval(x))
            if i == 0: return None
            o = tm.replace_terms(blocks.leaf(solve.simp(st.mem[self.off].at(k), fc), fc), {app('OFF', I, IC(0)): IC(0), app('SUMN', I, IC(0)): IC(0)})
            self.D.placefacts(st, o)
            res.append((c, Ptr(self.bases[i - 1], o) if i > 0 else NULL))
        if len(res) == 1: return res[0][1]
        return PIte(res[:-1] + [(TRUE, res[-1][1])]) if res else None

def leaves(t):
    ls = []
    def go(x):
        if x.op == 'ite': go(x.args[1]); go(x.args[2])
        elif x not in ls: ls.append(x)
    go(t); return ls

class Placement:
    """F(j), lo <= j: offset in floats of vector j"""
    def __init__(self, name, lo, base): self.name, self.lo, self.base, self.props = name, lo, base, set()
    def F(self, j): return app(self.name, I, j)

class DeepNet(BigNet):
    simd = property(lambda s: s.c.align // 4)
    def __init__(self, c, lo=2, writable=None):
        self.c = c; ex = c.ex
        self.ll = layout('neuralnet.h', 'layer_t', LAYER, c.cfg); self.nl = layout('neuralnet.h', 'neuralnet_t', NET, c.cfg)
        self.L = c.int('n_layers', lo, INT_MAX // 64)
        self.layers = Region('layers', 'cells', tm.scale(self.L, self.ll['sizeof']), writable=False, align=16)
        self.layers.es = self.ll['sizeof']; self.layers.stepped = True; self.layers.handler = LayersHandler(self); c.st.mem[self.layers] = {}
        self.nn = Region('nn', 'cells', IC(self.nl['sizeof']), writable=False, align=16)
        self.loss = Fn.get('loss_fn')
        c.st.mem[self.nn] = {self.nl['n_layers']: (4, self.L), self.nl['layer']: (8, Ptr(self.layers, 0)), self.nl['loss']: (8, Ptr(self.loss, 0))}
        self.logs, self.recording, self.places, self.pregs = [], None, [], {}
        self.known = set()
        self.P = self.OFF(self.L)
        self.facts(c.st, IC(0), self.L, sub(self.L, IC(1)))
        c.assume(le(self.P, IC(INT_MAX // 4 - 64)), le(add(self.SUMN(self.L), add(self.N_(IC(0)), tm.scale(self.L, 64))), IC(INT_MAX // 4)))
        ex.ptrarray = lambda st, name, n: self.ptrarray(st, name, n)
    def ptrarray(self, st, name, n): return Ptr(PtrLog(self, st, name, n).reg, 0)
    # the specification's sequences
    def N_(self, k): return app('N', I, k)
    def OFF(self, k): return IC(0) if k is IC(0) else app('OFF', I, k)
    def SUMN(self, k): return IC(0) if k is IC(0) else app('SUMN', I, k)
    def block(self, k): return add(self.N_(add(k, IC(1))), mul(self.N_(k), self.N_(add(k, IC(1)))))
    def woff(self, k): return add(self.OFF(k), self.N_(add(k, IC(1))))
    def facts(self, st, *ks):
        """instances of the definitions (and of their consequences: both sequences increase)"""
        L, one = self.L, IC(1)
        for k in ks:
            k1 = add(k, one); n, m = self.N_(k), self.N_(k1)
            for t in (n, m): RANGES[t] = (Fraction(1), Fraction(INT_MAX))
            inside = and_(ge(k, IC(0)), lt(k, L)); within = and_(ge(k, IC(0)), le(k, L))
            for t in (implies(within, ge(n, one)), implies(within, le(n, IC(INT_MAX))), implies(inside, and_(ge(m, one), le(m, IC(INT_MAX)), ge(mul(n, m), one), le(mul(n, m), IC(INT_MAX)))),
                      implies(within, and_(ge(self.OFF(k), IC(0)), le(self.OFF(k), self.P), ge(self.SUMN(k), IC(0)), le(self.SUMN(k), self.SUMN(L)))),
                      implies(inside, and_(eq(self.OFF(k1), add(self.OFF(k), self.block(k))), le(self.OFF(k1), self.P), eq(self.SUMN(k1), add(self.SUMN(k), m)), le(self.SUMN(k1), self.SUMN(L))))):
                st.assume(t)
    def order(self, st, j, k):
        """layer j lies before layer k in the parameter vector"""
        st.assume(implies(and_(ge(j, IC(0)), lt(j, k), le(k, self.L)), le(add(self.OFF(j), self.block(j)), self.OFF(k))))
    # fields of the layers
    def field(self, ex, st, nm, idx):
        if nm in ('n_input', 'n_output'):
            self.facts(st, idx)
            return self.N_(idx if nm == 'n_input' else add(idx, IC(1)))
        if nm in ('weight', 'bias'):
            self.facts(st, idx); return Ptr(self.preg(st, nm, idx), 0)
        if nm == 'activation_func': return Ptr(Fn.get('layer_activation'), idx)
        if nm == 'activation_derivative': return Ptr(Fn.get('layer_derivative'), idx)
        raise Unsupported('layer field %s of a network of symbolic depth' % nm)
    def preg(self, st, nm, idx):
        """weight matrix or bias of layer idx (read only)"""
        key = (nm, idx)
        if key not in self.pregs:
            m = self.N_(add(idx, IC(1))); n = mul(self.N_(idx), m) if nm == 'weight' else m
            r = Region('%s_%d' % (nm, len(self.pregs)), 'arr', tm.scale(n, 4), align=4, writable=False); self.pregs[key] = r
        r = self.pregs[key]
        if r not in st.mem:
            v = fresh('r', I); st.mem[r] = Arr(v, app('W' if nm == 'weight' else 'B', R, idx, v)); st.assume(gt(r.addr, IC(0))); st.assume(eq(intmod(r.addr, IC(4)), IC(0)))
        return r
    # placements read off the code
    def placefacts(self, st, o):
        for x in subterms_app(o, {p.name for p in self.places}):
            p = [q for q in self.places if q.name == x.args[0]][0]
            for j in (x.args[1],): self.place(st, p, j)
    def place(self, st, p, j):
        one = IC(1); F = p.F
        def g(*ts): return implies(and_(ge(j, IC(p.lo)), le(j, self.L)), and_(*ts))
        if 'pos' in p.props: st.assume(g(ge(F(j), IC(0))))
        if 'mod' in p.props: st.assume(g(eq(intmod(F(j), IC(self.simd)), IC(0))))
        if 'sum' in p.props: st.assume(g(le(F(j), add(self.SUMN(sub(j, one)), tm.scale(sub(j, one), self.simd)))))
        if 'gap' in p.props: st.assume(g(le(add(F(j), self.N_(j)), F(add(j, one)))))
        self.facts(st, sub(j, one), j)
    def pair(self, st, p, j, k):
        """vector j lies before vector k (by induction over k from the distance of neighbours)"""
        if 'gap' in p.props: st.assume(implies(and_(ge(j, IC(p.lo)), lt(j, k), le(k, self.L)), le(add(p.F(j), self.N_(j)), p.F(k))))
    # loops that compute sizes and places
    def setup(self, ex, f, L, phis, init, s0, rets):
        if getattr(self, 'inside', False): return None
        self.inside = True
        try: return self._setup(ex, f, L, phis, init, s0, rets)
        finally: self.inside = False
    def _setup(self, ex, f, L, phis, init, s0, rets):
        # the first iteration: which arrays of pointers does the loop fill
        g = s0.fork(); self.recording = []; ex.silent += 1
        try: latches, _, _ = ex.region(f, L, [(None, g)])
        finally: ex.silent -= 1; rec, self.recording = self.recording, None
        ws = {}
        if os.environ.get('DEEPDBG'): print('first', L.header, [(l.reg.name, pp(k)) for l, k in rec], len(latches))
        for log, k in rec:
            if ws.get(log, k) is not k or not (k.op == 'const' or k is sub(self.L, IC(1))): return None
            ws[log] = k
        one = IC(1); fam = {}
        for log, k in ws.items():
            ls = [s for _, s in latches]
            if len(ls) != 1: return None
            q = log.at(ex, ls[0], k)
            if not isinstance(q, Ptr) or q.base is None: return None
            if k.op != 'const':      # from the last layer to the first
                fam[log] = dict(c=None, base=q.base, F0=None, old=(s0.mem[log.which], s0.mem[log.off]), val=None, place=None); continue
            c = int(cval(k)); prev = log.at(ex, s0, IC(c - 1)) if c > 0 else None
            lo, b = c, None
            if isinstance(prev, Ptr) and prev.base is q.base: lo, b = c - 1, prev.off
            fam[log] = dict(c=c, lo=lo, base=q.base, F0=b, old=(s0.mem[log.which], s0.mem[log.off]), val=None, place=None)
        pos = var('pos%d' % next(tm._fresh), I); RANGES[pos] = (Fraction(0), Fraction(INT_MAX))
        for E in [self.L, sub(self.L, one), sub(self.L, IC(2))]:
            r = self.setup_at(ex, f, L, phis, init, s0, rets, fam, pos, E)
            if r is not None: return r
        return None
    def setup_at(self, ex, f, L, phis, init, s0, rets, fam, pos, E):
        one = IC(1); D = self
        if not solve.prove(s0.facts(), ge(E, IC(0))): return None
        def content(st, P):
            for log, d in fam.items():
                n = log.num(d['base'])
                w0, o0 = d['old']
                v = fresh('r', I); win = stored(d, v, P)
                st.mem[log.which] = Arr(v, ite(win, IC(n), w0.at(v)))
                v = fresh('r', I); win = stored(d, v, P)
                st.mem[log.off] = Arr(v, ite(win, s0off(d, log, v), o0.at(v)))
        def stored(d, v, P): return and_(ge(v, IC(d['lo'])), lt(v, add(P, IC(d['c'])))) if d['c'] is not None else and_(ge(v, sub(D.L, P)), lt(v, D.L))
        def index(d): return add(pos, IC(d['c'])) if d['c'] is not None else sub(sub(D.L, one), pos)
        def P(st): return pos if st.ghost.get('case', IC(0)) is IC(0) else E
        def havoc(ex, st):
            p = P(st); st.ghost['pos'] = p
            if p is pos: st.assume(and_(ge(pos, IC(0)), lt(pos, E)))
            content(st, p); D.facts(st, p)
            if any(d['c'] is None for d in fam.values()): D.facts(st, sub(D.L, p), sub(sub(D.L, p), one))
            for d in fam.values():
                if d['place'] is not None:
                    for j in (add(p, IC(d['c'] - 1)), add(p, IC(d['c'] - 2)), add(p, IC(d['c']))): D.place(st, d['place'], j)
        def cands(ex, st):
            p = st.ghost.get('pos', IC(0)); out = []
            for q in (p, add(p, one)): out += [q]
            for q in (p, add(p, one)): out += [D.SUMN(q), tm.scale(D.SUMN(q), 4), D.OFF(q), tm.scale(D.OFF(q), 4)]
            if any(d['c'] is None for d in fam.values()): out += [tm.scale(D.OFF(sub(D.L, p)), 4), D.OFF(sub(D.L, p))]
            for d in fam.values():
                if 'scalar' in d: i_, K, a = d['scalar']; out.append(tm.scale(sub(tm.scale(app(d['name'], I, add(p, IC(i_))), 4), K), Fraction(1, a)))
            return out + [sub(E, p), sub(sub(E, one), p), tm.scale(p, 8), tm.scale(p, D.ll['sizeof'])]
        def latch(st):
            D.facts(st, pos); st.ghost['pos'] = add(pos, one)
            for d in fam.values():   # F at the next index is defined by the recurrence
                if d['place'] is not None: st.assume(eq(app(d['name'], I, add(d['j'], one)), d['rec']))
        def step(ex, st, line):
            for log, d in fam.items():
                i = index(d); f_ = st.facts(); n = IC(log.num(d['base']))
                ex.oblige_eq(st, line, 'loop', solve.simp(st.mem[log.which].at(i), f_), n, 'one more pointer into %s is stored' % d['base'].name)
                ex.oblige_eq(st, line, 'loop', st.mem[log.off].at(i), s0off(d, log, i), 'place of the next vector')
                r = fresh('r', I); s = st.fork(); s.assume(stored(d, r, pos))
                ex.oblige_eq(s, line, 'loop', s.mem[log.which].at(r), n, 'earlier pointers stay')
                ex.oblige_eq(s, line, 'loop', s.mem[log.off].at(r), s0off(d, log, r), 'earlier pointers stay')
                r = fresh('r', I); s = st.fork(); s.assume(not_(or_(stored(d, r, pos), eq(r, i))))
                ex.oblige_eq(s, line, 'loop', s.mem[log.which].at(r), d['old'][0].at(r), 'other pointers stay'); ex.oblige_eq(s, line, 'loop', s.mem[log.off].at(r), d['old'][1].at(r), 'other pointers stay')
        def s0off(d, log, r):
            if d['val'] is None: return tm.scale(app(d['name'], I, r), 4)
            return subst(d['val'], {pos: sub(r, IC(d['c'])) if d['c'] is not None else sub(sub(D.L, one), r)})
        tracked = {x for log in fam for x in (log.which, log.off)}
        def mkhook(stepf):
            h = steps.StepLoop(set(), tracked, havoc, lambda ex, st, line: None, stepf, cands); h.latch_ghost = latch; h.bound_cands = True; h.marks = [D.L, sub(D.L, one)]
            return h
        z = s0.fork(); z.ghost['pos'] = IC(0); z.ghost['case'] = IC(0)
        # dry run: is E the number of iterations, and what is stored
        for log, d in fam.items():
            d['val'] = None; d['name'] = 'F_%s_%d' % (log.reg.name, len(D.places)); d['place'] = None; d.pop('scalar', None)
        seen, prog, err = [], [], None
        h = mkhook(lambda ex, st, line: seen.append(st))
        h.cases = [0]; n0 = len(ex.obls); h.progress = lambda ex, ls, g0, lv, line: prog.append((g0, lv))
        try: outs = steps.step_loop(h, ex, f, L, phis, init, z.fork(), [])
        except Unsupported as e: outs = None; err = str(e)[:300]
        del ex.obls[n0:]
        if os.environ.get('DEEPDBG'): print('setup', L.header, pp(E), 'outs', outs is None or [solve.infeasible(s.facts()) for _, _, s in outs], 'seen', len(seen), err)
        if outs is None or not seen or any(not solve.infeasible(s.facts()) for _, to, s in outs if not dead(f, to)): return None
        for log, d in fam.items():
            i = index(d); vals = []
            for st in seen:
                v = solve.simp(st.mem[log.off].at(i), st.facts())
                if v not in vals: vals.append(v)
            if os.environ.get('DEEPDBG'): print('value', log.reg.name, [pp(x)[:300] for x in vals])
            if len(vals) != 1: return None
            v = vals[0]; hs = [x for x in fv(v) if str(x.args[0]).startswith('h!')]; uses = subterms_app(v, {d['name']})
            if hs:
                # the place is computed in a variable of the loop
                r = D.scalar(v, hs, uses, prog, init, d, pos)
                if r is None: return None
                F0, K, a, jo, inc = r; jp = add(pos, IC(jo))
                d['rec'] = add(app(d['name'], I, jp), inc); d['F0'] = F0; lo = jo; d['scalar'] = (jo, K, a)
            elif not uses:
                for t in (D.OFF(i), D.woff(i)):
                    if prove_eq(v, tm.scale(t, 4), seen[0].facts()): v = tm.scale(t, 4); break
                d['val'] = v; continue
            else:
                jp = sub(i, one)
                if any(x.args[1] is not jp for x in uses) or d['F0'] is None or d['c'] is None: return None
                if any(c % 4 for c in pd(v).values()): return None
                d['rec'] = tm.scale(v, Fraction(1, 4)); lo = d['lo']
            d['j'] = jp; d['plo'] = lo
            pl = Placement(d['name'], lo, d['base']); D.places.append(pl); d['place'] = pl
            D.induct(ex, seen[0], pl, jp, add(jp, one), d)
        h = mkhook(step); h.cases = [0, 1]
        for log, d in fam.items():
            if d['place'] is not None and d['F0'] is not None: z.assume(eq(tm.scale(app(d['name'], I, IC(d['plo'])), 4), d['F0']))
        outs = steps.step_loop(h, ex, f, L, phis, init, z, rets)
        for _, _, s in outs: s.ghost.pop('pos', None); s.ghost.pop('case', None)
        return outs
    def scalar(self, v, hs, uses, prog, init, d, pos):
        """the stored place v = a*h + K (before the step) or a*h' + K (after it) of a loop variable h:
        place of the first index, K, a, distance of the index from the position, growth in floats"""
        if len(hs) != 1 or uses or d['c'] is None or len(prog) != 1: return None
        h = hs[0]; g0, lv = prog[0]; off = lambda x: x.off if isinstance(x, Ptr) else x
        for loc, g in g0.items():
            if off(g) is not h or loc not in init: continue
            H, h0 = off(lv[loc]), off(init[loc]); D_ = sub(H, h)
            if h in fv(D_): return None
            for a in (1, 4):
                for now, jo in ((h, d['c']), (H, d['c'] - 1)):
                    K = sub(v, tm.scale(now, a))
                    if K.op != 'const': continue
                    inc = tm.scale(D_, Fraction(a, 4))
                    if any(c.denominator != 1 for c in pd(inc).values()): return None
                    return add(tm.scale(h0, a), K), K, a, jo, inc
        return None
    def induct(self, ex, st, pl, j, i, d):
        """which properties of the placement hold for every vector"""
        F = pl.F; one = IC(1); val = d['rec']
        base = {'pos': [], 'mod': [], 'sum': [], 'gap': []}
        f0 = tm.scale(d['F0'], Fraction(1, 4)) if all(c % 4 == 0 for c in pd(d['F0']).values()) else None
        if f0 is None: return
        lo = IC(pl.lo); s = st.fork(); self.facts(s, sub(lo, one), lo); fs = s.facts()
        props = {'pos', 'mod', 'sum', 'gap'}
        if not solve.prove(fs, ge(f0, IC(0))): props.discard('pos')
        if not solve.prove(fs, eq(intmod(f0, IC(self.simd)), IC(0))): props.discard('mod')
        if not solve.prove(fs, le(f0, add(self.SUMN(sub(lo, one)), tm.scale(sub(lo, one), self.simd)))): props.discard('sum')
        while True:
            s = st.fork(); pl.props = props - {'gap'}; self.place(s, pl, j); self.facts(s, j, sub(j, one), i)
            s.assume(and_(ge(j, lo), lt(j, self.L))); fs = s.facts(); new = set()
            if 'pos' in props and solve.prove(fs, ge(val, IC(0))): new.add('pos')
            if 'mod' in props and solve.prove(fs, eq(intmod(val, IC(self.simd)), IC(0))): new.add('mod')
            if 'sum' in props and solve.prove(fs, le(val, add(self.SUMN(j), tm.scale(j, self.simd)))): new.add('sum')
            if 'gap' in props and solve.prove(fs, le(add(F(j), self.N_(j)), val)): new.add('gap')
            if new == props: break
            props = new
        pl.props = props
        ex.notes.add('places of the vectors: %s by induction' % ', '.join(sorted(props)))

def dead(f, b):
    """the block never returns (a failed assertion; the assertion itself is an obligation)"""
    return f.blocks[b].ins[-1].op == 'unreachable'

def subterms_app(t, names):
    out = []
    def pred(x): return x.op == 'app' and x.args[0] in names
    for x in tm.subterms(t, pred):
        if x not in out: out.append(x)
    return out

class Forward:
    """the loop over the layers from input to output"""
    def __init__(self, D, X, outs, keep=True):
        self.D, self.X, self.keep = D, X, keep
        self.outs = outs
        self.gh = Region('ghost_forward', 'cells', IC(8), align=16); D.c.st.mem[self.gh] = {0: (8, IC(0))}
        self.done = None
    def pos(self, st): return st.mem[self.gh][0][1]
    def z(self, k, r):
        """pre-activation of layer k"""
        D = self.D; q = fresh('q', I); m = D.N_(add(k, IC(1)))
        return add(app('B', R, k, r), msum(IC(0), D.N_(k), q, mul(app('a', R, k, q), app('W', R, k, add(mul(q, m), r)))))
    def activation(self, ex, f, it, st, a):
        k = ex.callee_index; D = self.D
        n, y = a; _ptrs(ex, it, st, y)
        m = D.N_(add(k, IC(1)))
        ex.oblige_eq(st, it.line, 'call', k, self.pos(st), 'activations are applied layer by layer')
        ex.oblige_eq(st, it.line, 'call', n, m, 'activation is applied to n_output elements')
        _wr(ex, it, st, y, m, 'activation')
        r = fresh('r', I); s = st.fork(); s.assume(ge(r, IC(0))); s.assume(lt(r, m))
        ex.oblige_eq(s, it.line, 'call', _content(ex, st, y)(r), self.z(k, r), 'activation receives bias + W^T * previous activations')
        _update(ex, st, y, m, lambda r: app('a', R, add(k, IC(1)), r))
        st.mem[self.gh] = {0: (8, add(k, IC(1)))}
        return st
    def vector(self, ex, st, j):
        """where vector j is"""
        D = self.D
        if not D.logs: raise Unsupported('no array of pointers to the activations')
        D.facts(st, j)
        q = D.logs[0].at(ex, st, j)
        if isinstance(q, PIte): q = steps.resolve(q, st)
        return q
    def windows(self, ex, st, js):
        """vectors j are in place; [(j, condition)]"""
        D = self.D; new = {}
        for j, cond in js:
            s = st.fork(); s.assume(cond)
            if solve.infeasible(s.facts()): continue
            q = self.vector(ex, s, j)
            if q is None: continue
            for t in s.facts()[len(st.facts()):]: st.assume(implies(cond, t))
            if not q.base.writable: continue
            new.setdefault(q.base, []).append((j, cond, ex.elemidx(q.off, 4)))
        for reg in self.regs(st):
            v = fresh('r', I); b = app('rest%d_%s' % (next(tm._fresh), reg.name), R, v)
            for j, cond, o in reversed(new.get(reg, [])):
                b = ite(and_(cond, window(v, o, add(o, D.N_(j)))), app('a', R, j, sub(v, o)), b)
            st.mem[reg] = Arr(v, b)
    def regs(self, st): return [b for b in self.D.logs[0].bases if b.writable and isinstance(st.mem.get(b), Arr)]
    def check(self, ex, st, line, j, what):
        q = self.vector(ex, st, j)
        if q is None: ex.oblige(st, line, 'loop', FALSE, what); return
        r = fresh('r', I); s = st.fork(); s.assume(and_(ge(r, IC(0)), lt(r, self.D.N_(j))))
        ex.oblige_eq(s, line, 'loop', _content(ex, s, q)(r), app('a', R, j, r), what)
    def hook(self, ex, f, L, phis, init, s0, rets):
        D = self.D; one = IC(1)
        if D.inside or not steps.loop_calls(ex, f, L.blocks, {'vector_matrix_multiply'}): return None
        if not D.logs: return None
        e0 = self.pos(s0)
        if e0.op != 'const': return None
        e0 = int(cval(e0)); k = var('k%d' % next(tm._fresh), I); RANGES[k] = (Fraction(0), Fraction(INT_MAX))
        J = var('J%d' % next(tm._fresh), I); RANGES[J] = (Fraction(0), Fraction(INT_MAX))
        POS = {0: IC(0), 1: k, 2: sub(D.L, one), 3: D.L}
        def P(st): return POS[int(cval(st.ghost['case']))]
        def havoc(ex, st):
            p = P(st); st.ghost['pos'] = p
            if p is k: st.assume(and_(gt(k, IC(0)), lt(k, sub(D.L, one))))
            st.mem[self.gh] = {0: (8, p)}
            D.facts(st, p); D.facts(st, J)
            for pl in D.places:
                for j in (p, add(p, one), J) + ((sub(p, one),) if p is D.L else ()): D.place(st, pl, j)
                D.pair(st, pl, J, p); D.pair(st, pl, J, add(p, one)); D.pair(st, pl, p, add(p, one))
                if p is D.L: D.pair(st, pl, sub(p, one), p); D.pair(st, pl, J, sub(p, one))
            self.windows(ex, st, ([(p, TRUE)] if p is not IC(0) else []) + ([(sub(p, one), TRUE)] if self.keep and p is D.L else []) + ([(J, and_(ge(J, one), lt(J, p)))] if self.keep else []))
        def entry(ex, st, line):
            for j in range(1, e0 + 1): self.check(ex, st, line, IC(j), 'the vectors computed before the loop are in place')
        def step(ex, st, line):
            p = st.ghost['p']
            ex.oblige_eq(st, line, 'loop', self.pos(st), add(p, one), 'one layer is computed in each iteration')
            self.check(ex, st, line, add(p, one), 'the output of the layer is in place')
            if self.keep:
                if p is not IC(0): self.check(ex, st, line, p, 'the output of the layer before stays')
                s = st.fork(); s.assume(and_(ge(J, one), lt(J, p)))
                if not solve.infeasible(s.facts()): self.check(ex, s, line, J, 'the outputs of earlier layers stay')
        def cands(ex, st):
            p = st.ghost['pos']; return [p, add(p, one), sub(D.L, p), sub(sub(D.L, one), p), tm.scale(p, 8), tm.scale(p, D.ll['sizeof'])]
        def latch(st): st.ghost['p'] = P(st); st.ghost['pos'] = add(P(st), one)
        z = s0.fork(); z.ghost['pos'] = IC(e0); z.ghost['case'] = IC(0)
        h = steps.StepLoop(set(), set(self.regs(s0)) | {self.gh}, havoc, entry, step, cands, marks=[D.L]); h.latch_ghost = latch
        h.cases = [c for c in (1, 0, 2, 3) if c != 0 or e0 == 0]     # the general position first: it tells which candidates fit
        D.inside = True
        try: outs = steps.step_loop(h, ex, f, L, phis, init, z, rets)
        finally: D.inside = False
        for _, _, s in outs:
            for g in ('pos', 'case', 'p'): s.ghost.pop(g, None)
        self.J = J
        for _, to, s in outs:
            if not dead(f, to): self.final = {r: s.mem[r] for r in self.regs(s)}; self.exit = s
        return outs
DeepNet.inside = False

class LayerLoop:
    """a loop over the layers 0, 1, .. in which `havoc` gives the state after `pos` layers"""
    def __init__(self, D, tracked, state, entry, step, what, also=()):
        self.D, self.tracked, self.state, self.entry, self.step, self.what, self.also = D, tracked, state, entry, step, what, also
        self.hits = 0
        self.k = var('k%d' % next(tm._fresh), I); RANGES[self.k] = (Fraction(0), Fraction(INT_MAX))
    def hook(self, ex, f, L, phis, init, s0, rets):
        D, k, one = self.D, self.k, IC(1)
        if D.inside: return None
        self.hits += 1
        if self.hits > 1: raise Unsupported('%s: more than one loop over the layers' % self.what)
        def P(st): return k if st.ghost['case'] is IC(0) else D.L
        def havoc(ex, st):
            p = P(st); st.ghost['pos'] = p
            if p is k: st.assume(and_(ge(k, IC(0)), lt(k, D.L)))
            D.facts(st, p); self.state(ex, st, p)
        def entry(ex, st, line): self.entry(ex, st, line)
        def cands(ex, st):
            p = st.ghost['pos']
            return [p, add(p, one), D.OFF(p), tm.scale(D.OFF(p), 4), sub(D.L, p), sub(sub(D.L, one), p), tm.scale(p, 8), tm.scale(p, D.ll['sizeof'])]
        def latch(st): D.facts(st, P(st)); st.ghost['pos'] = add(P(st), one)
        def step(ex, st, line): self.step(ex, st, line, P(st))
        z = s0.fork(); z.ghost['pos'] = IC(0); z.ghost['case'] = IC(0)
        h = steps.StepLoop(set(), set(self.tracked), havoc, entry, step, cands, marks=[D.L]); h.latch_ghost = latch; h.cases = [0, 1]; h.bound_cands = True
        D.inside = True
        try: outs = steps.step_loop(h, ex, f, L, phis, init, z, rets)
        finally: D.inside = False
        for _, to, s in outs:
            if dead(f, to): continue
            if not ex.silent: ex.oblige_eq(s, loops.loopline(f, L), 'loop', s.ghost['pos'], D.L, '%s: every layer is visited' % self.what)
        for _, to, s in outs:
            for g in ('pos', 'case'): s.ghost.pop(g, None)
        return outs

class Backward:
    """the loop over the layers from output to input; R layers remain"""
    def __init__(self, D, fw, G):
        self.D, self.fw, self.G = D, fw, G
        self.gh = Region('ghost_backward', 'cells', IC(8), align=16); D.c.st.mem[self.gh] = {0: (8, D.L)}
    def left(self, st): return st.mem[self.gh][0][1]
    def loss(self, ex, f, it, st, a):
        D = self.D; n, p, t, g = a; _ptrs(ex, it, st, p, t, g)
        m = D.N_(D.L)
        ex.oblige_eq(st, it.line, 'call', n, m, 'loss is applied to n_output elements')
        _rd(ex, it, st, p, n, 'loss prediction'); _rd(ex, it, st, t, n, 'loss target'); _wr(ex, it, st, g, n, 'loss gradient')
        r = fresh('r', I); s = st.fork(); s.assume(ge(r, IC(0))); s.assume(lt(r, m))
        ex.oblige_eq(s, it.line, 'call', _content(ex, st, p)(r), app('a', R, D.L, r), 'loss receives the network output')
        ex.oblige_eq(s, it.line, 'call', _content(ex, st, t)(r), app('T', R, r), 'loss receives the target')
        _sep(ex, it, st, g, n, p, n, 'loss'); _sep(ex, it, st, g, n, t, n, 'loss')
        _update(ex, st, g, m, lambda r: app('dloss', R, r))
        return st
    def pre(self, k, r):
        D = self.D
        if k is sub(D.L, IC(1)): return app('dloss', R, r)
        q = fresh('q', I); k1 = add(k, IC(1)); m = D.N_(add(k, IC(2)))
        return msum(IC(0), m, q, mul(app('W', R, k1, add(mul(r, m), q)), app('delta', R, k1, q)))
    def derivative(self, ex, f, it, st, a):
        D = self.D; k = ex.callee_index; k1 = add(k, IC(1)); n, p, g = a; _ptrs(ex, it, st, p, g); m = D.N_(k1)
        ex.oblige_eq(st, it.line, 'call', k1, self.left(st), 'derivatives are applied from the last layer to the first')
        ex.oblige_eq(st, it.line, 'call', n, m, 'derivative is applied to n_output elements')
        _rd(ex, it, st, p, n, 'derivative activation'); _wr(ex, it, st, g, n, 'derivative gradient')
        r = fresh('r', I); s = st.fork(); s.assume(ge(r, IC(0))); s.assume(lt(r, m))
        ex.oblige_eq(s, it.line, 'call', _content(ex, st, p)(r), app('a', R, k1, r), 'derivative receives the activations of the layer')
        ex.oblige_eq(s, it.line, 'call', _content(ex, st, g)(r), self.pre(k, r), 'derivative receives the back-propagated gradient')
        _sep(ex, it, st, g, n, p, n, 'derivative')
        _update(ex, st, g, m, lambda r: app('delta', R, k, r))
        st.mem[self.gh] = {0: (8, k)}
        return st
    def grad(self, st, entries):
        """contents of the gradient: (layer, condition, kind) with kind done, zero or loss"""
        D = self.D; v = fresh('r', I); b = app('grest%d' % next(tm._fresh), R, v)
        for j, cond, kind in reversed(entries):
            D.facts(st, j); o = D.OFF(j); m = D.N_(add(j, IC(1))); w = add(o, m); e = add(o, D.block(j)); i = sub(v, w)
            bias = {'done': app('delta', R, j, sub(v, o)), 'zero': RC(0), 'loss': app('dloss', R, sub(v, o)), 'pre': self.pre(j, sub(v, o))}[kind]
            wt = mul(app('a', R, j, intdiv(i, m)), app('delta', R, j, intmod(i, m))) if kind == 'done' else RC(0)
            b = ite(and_(cond, window(v, o, w)), bias, ite(and_(cond, window(v, w, e)), wt, b))
        st.mem[self.G] = Arr(v, b)
    def check(self, ex, st, line, j, kind, what):
        D = self.D; D.facts(st, j); m = D.N_(add(j, IC(1))); G = st.mem[self.G]
        r = fresh('r', I); s = st.fork(); s.assume(and_(ge(r, IC(0)), lt(r, m)))
        ex.oblige_eq(s, line, 'loop', G.at(add(D.OFF(j), r)), {'done': app('delta', R, j, r), 'zero': RC(0), 'loss': app('dloss', R, r)}[kind], what + ' (biases)')
        x, y = fresh('i', I), fresh('j', I); s = st.fork(); s.assume(and_(ge(x, IC(0)), lt(x, D.N_(j)))); s.assume(and_(ge(y, IC(0)), lt(y, m)))
        ix = add(mul(x, m), y); s.assume(and_(ge(ix, IC(0)), lt(ix, mul(D.N_(j), m))))   # x*m + y <= (N-1)*m + m-1
        ex.oblige_eq(s, line, 'loop', G.at(add(D.woff(j), ix)), mul(app('a', R, j, x), app('delta', R, j, y)) if kind == 'done' else RC(0), what + ' (weights)')
    def hook(self, ex, f, L, phis, init, s0, rets):
        D = self.D; one = IC(1)
        if D.inside or not steps.loop_calls(ex, f, L.blocks, {'vector_vector_outer'}): return None
        fin = getattr(self.fw, 'final', {})
        if not fin or any(s0.mem.get(r) is not fin[r] and s0.mem[r].body is not fin[r].body for r in fin): return None
        # between iterations the biases of the next layer are either still zero or hold the back-propagated gradient
        n0 = len(ex.obls); first = None
        for mode in ('zero', 'pre'):
            r0 = list(rets); x0 = ex.obls[n0:]
            outs = self.run(ex, f, L, phis, init, s0, r0, mode)
            ok = all(o.ok for o in ex.obls[n0:])
            if first is None: first = (ex.obls[n0:], outs, r0, self.J)
            if os.environ.get('DEEPDBG'): print('mode', mode, [(o.kind, o.desc, pp(o.goal)[:400], [pp(x)[:150] for x in (o.facts or [])]) for o in ex.obls[n0:] if not o.ok])
            if ok or ex.silent: break
            del ex.obls[n0:]
        else:
            ex.obls.extend(first[0]); outs, r0, self.J = first[1], first[2], first[3]
        rets[:] = r0
        return outs
    def run(self, ex, f, L, phis, init, s0, rets, mode):
        D = self.D; one = IC(1); fin = self.fw.final
        k, J, Z = [var('%s%d' % (n, next(tm._fresh)), I) for n in ('k', 'J', 'Z')]
        for x in (k, J, Z): RANGES[x] = (Fraction(0), Fraction(INT_MAX))
        REM = {0: D.L, 1: add(k, one), 2: one, 3: IC(0)}
        e0 = self.left(s0); peeled = e0 is sub(D.L, one)
        heads = {}
        def P(st): return REM[int(cval(st.ghost['case']))]
        def havoc(ex, st):
            R_ = P(st); st.ghost['rem'] = R_
            if R_ is REM[1]: st.assume(and_(gt(k, IC(0)), lt(k, sub(D.L, one))))
            st.mem[self.gh] = {0: (8, R_)}
            x = sub(R_, one); ks = [R_, J, Z] + ([x] if R_ is not IC(0) else [])
            D.facts(st, *ks)
            for a, b in ((x, R_), (R_, J), (x, J), (Z, x), (Z, R_), (Z, J)):
                if b is not x or R_ is not IC(0): D.order(st, a, b)
            for pl in D.places:
                for j in ks: D.place(st, pl, j)
                D.pair(st, pl, x, R_)
            vec = [(j, TRUE) for j in ([R_] if R_ is not IC(0) else []) + ([x] if R_ not in (IC(0), one) else [])]
            self.fw.windows(ex, st, vec)
            heads[id(st.ghost['case'])] = {r: st.mem[r] for r in fin}
            es = []
            if R_ is not D.L: es.append((R_, TRUE, 'done'))
            es.append((J, and_(lt(R_, J), lt(J, D.L)), 'done'))
            if R_ is not IC(0): es.append((x, TRUE, 'loss' if R_ is D.L else mode))
            z = x
            if mode == 'pre' and R_ not in (IC(0), one):
                z = sub(x, one); es.append((z, TRUE, 'zero')); D.facts(st, z)
                for a, b in ((z, x), (z, R_), (z, J), (Z, z)): D.order(st, a, b)
            es.append((Z, and_(ge(Z, IC(0)), lt(Z, z)), 'zero'))
            self.grad(st, es)
        def entry(ex, st, line):
            s = st.fork(); x = sub(D.L, one); D.facts(s, x, Z); D.order(s, Z, x)
            if peeled:
                self.check(ex, s, line, x, 'done', 'gradient of the last layer before the loop'); r = fresh('r', I)
                if mode == 'pre': ex.oblige(s, line, 'loop', FALSE, 'back-propagated gradient before the loop')
                s1 = s.fork(); s1.assume(and_(ge(Z, IC(0)), lt(Z, x))); s1.assume(and_(ge(r, IC(0)), lt(r, D.block(Z))))
                ex.oblige_eq(s1, line, 'loop', s1.mem[self.G].at(add(D.OFF(Z), r)), RC(0), 'the gradient is zero before the loop')
                return
            ex.oblige_eq(st, line, 'loop', e0, D.L, 'no layer is done before the loop')
            m = D.N_(D.L); r = fresh('r', I); s1 = s.fork(); s1.assume(and_(ge(r, IC(0)), lt(r, m)))
            ex.oblige_eq(s1, line, 'loop', s1.mem[self.G].at(add(D.OFF(x), r)), app('dloss', R, r), 'biases of the last layer hold the derivative of the loss')
            s1 = s.fork(); s1.assume(and_(ge(r, IC(0)), lt(r, mul(D.N_(x), m))))
            ex.oblige_eq(s1, line, 'loop', s1.mem[self.G].at(add(D.woff(x), r)), RC(0), 'the gradient is zero before the loop')
            s1 = s.fork(); s1.assume(and_(ge(Z, IC(0)), lt(Z, x))); s1.assume(and_(ge(r, IC(0)), lt(r, D.block(Z))))
            ex.oblige_eq(s1, line, 'loop', s1.mem[self.G].at(add(D.OFF(Z), r)), RC(0), 'the gradient is zero before the loop')
        def step(ex, st, line):
            R_ = P(st); x = sub(R_, one)
            ex.oblige_eq(st, line, 'loop', self.left(st), x, 'one layer is done in each iteration')
            self.check(ex, st, line, x, 'done', 'gradient of the layer')
            if R_ is not D.L: self.check(ex, st, line, R_, 'done', 'the gradient of the layer after stays')
            s = st.fork(); s.assume(and_(lt(R_, J), lt(J, D.L)))
            if not solve.infeasible(s.facts()): self.check(ex, s, line, J, 'done', 'the gradients of later layers stay')
            last = x
            if mode == 'pre' and R_ not in (one, IC(0)):
                y = sub(x, one); last = y; s = st.fork(); D.facts(s, y); D.order(s, y, x); m = D.N_(x)
                r = fresh('r', I); s1 = s.fork(); s1.assume(and_(ge(r, IC(0)), lt(r, m)))
                ex.oblige_eq(s1, line, 'loop', s1.mem[self.G].at(add(D.OFF(y), r)), self.pre(y, r), 'the back-propagated gradient of the layer before')
                s1 = s.fork(); s1.assume(and_(ge(r, IC(0)), lt(r, mul(D.N_(y), m))))
                ex.oblige_eq(s1, line, 'loop', s1.mem[self.G].at(add(D.woff(y), r)), RC(0), 'the gradient of earlier layers is still zero')
            s = st.fork(); D.order(s, Z, last); s.assume(and_(ge(Z, IC(0)), lt(Z, last)))
            if not solve.infeasible(s.facts()):
                r = fresh('r', I); s.assume(and_(ge(r, IC(0)), lt(r, D.block(Z))))
                ex.oblige_eq(s, line, 'loop', s.mem[self.G].at(add(D.OFF(Z), r)), RC(0), 'the gradient of earlier layers is still zero')
            for r_, c in heads[id(st.ghost['case'])].items():
                if st.mem[r_] is c or st.mem[r_].body is c.body: continue
                r = fresh('r', I); ex.oblige_eq(st, line, 'loop', st.mem[r_].at(r), c.at(r), 'the activations stay')
        def cands(ex, st):
            p = st.ghost['rem']; x = sub(p, one)
            return [x, p, sub(D.L, p), sub(D.L, x), tm.scale(x, 8), tm.scale(p, 8), tm.scale(x, D.ll['sizeof']), tm.scale(p, D.ll['sizeof']), tm.scale(D.OFF(p), 4)]
        def latch(st): st.ghost['rem'] = sub(P(st), one)
        z = s0.fork(); z.ghost['rem'] = e0 if peeled else D.L; z.ghost['case'] = IC(0)
        h = steps.StepLoop(set(), set(fin) | {self.gh, self.G}, havoc, entry, step, cands, marks=[D.L]); h.latch_ghost = latch; h.cases = [1, 2, 3] if peeled else [1, 0, 2, 3]
        D.inside = True
        try: outs = steps.step_loop(h, ex, f, L, phis, init, z, rets)
        finally: D.inside = False
        for _, _, s in outs:
            for g in ('rem', 'case'): s.ghost.pop(g, None)
        self.J = J
        return outs
