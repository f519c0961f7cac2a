"""Creating and freeing networks (C17) of any number of layers; any allocation may fail."""
from harness import *
import steps, heap, blocks, loops
from blocks import Blocks, StructArray, FnCodes
from layout import layout
from nets import NET

SRC = ['src/neuralnet.c', INLINES]
LF = ['n_input', 'n_output', 'weight', 'bias', 'activation_func']
def ispos(p, base, off=None): return isinstance(p, Ptr) and p.base is base and (off is None or p.off is off)
def isnull(st, p): return isinstance(p, Ptr) and p.base is None and prove(st.facts(), eq(p.off, IC(0)))
def terms_of(facts, name):
    out = []
    for f in facts:
        for x in subterms(f, lambda t: t.op == 'app' and t.args[0] == name):
            if x not in out: out.append(x)
    return out

class LayerMem:
    """contract of malloc/calloc when the size is symbolic: the layer array"""
    def __init__(self, c, bl, n, fn):
        self.c, self.bl, self.n, self.made = c, bl, n, []
        self.kinds = dict(n_input=(-2 ** 31, 2 ** 31 - 1), n_output=(-2 ** 31, 2 ** 31 - 1), weight=bl, bias=bl, activation_func=fn)
    def make(self, ex, st, size, zero=False):
        sa = StructArray(self.c, 'layers%d' % len(self.made), 'neuralnet.h', 'layer_t', self.kinds, self.n)
        sa.fresh(st, zero); r = sa.reg; sa.onload = self.onload; r.size = size; r.heap = 'malloc'; self.made.append(sa)
        ok = var('alloc_ok!%d' % next(tm._fresh), B); r.ok = ok
        st.ghost[('a', r)] = ite(ok, IC(1), IC(0)); st.ghost[('f', r)] = IC(0)
        st.assume(gt(r.addr, IC(0)))
        return sa, ok
    @staticmethod
    def onload(st, v):
        for t in subterms(v, lambda t: t.op == 'app' and t.args[0] == 'size'): st.assume(and_(ge(t, IC(-2 ** 31)), le(t, IC(MAXSIZE))))
    def malloc(self, ex, f, it, st, a):
        if a[0].op == 'const': st.env[it.res] = heap._malloc(ex, it, st, 'malloc', a); return st
        ex.oblige(st, it.line, 'call', ge(a[0], IC(0)), 'malloc: size not negative')
        sa, ok = self.make(ex, st, a[0]); st.env[it.res] = PIte([(ok, Ptr(sa.reg, 0)), (TRUE, NULL)]); return st
    def calloc(self, ex, f, it, st, a):
        size = mul(a[0], a[1])
        if size.op == 'const': st.env[it.res] = heap._calloc(ex, it, st, 'calloc', a); return st
        ex.oblige(st, it.line, 'call', ge(size, IC(0)), 'calloc: size not negative')
        sa, ok = self.make(ex, st, size, True); st.env[it.res] = PIte([(ok, Ptr(sa.reg, 0)), (TRUE, NULL)]); return st

def tensor_int(c, name, st, size, lo, hi):
    r = Region(name, 'cells', size, writable=False, align=4); r.es = 4; r.stepped = True; st.mem[r] = {}
    class H:
        def load(self, ex, st, ty, p, line):
            k = ex.elemidx(p.off, 4)
            if k is None or ty != ('int', 32): raise Unsupported('access to ' + name)
            v = app(name, I, k); st.assume(and_(ge(v, IC(lo)), le(v, IC(hi)))); return v
        def store(self, ex, st, ty, v, p, line): pass
    r.handler = H(); return r

MAXSIZE = 2 ** 30          # larger products are 2**62 bytes and more
def create_setup(c):
    ex = c.ex
    n = c.int('n_layers', -2 ** 31, INT_MAX - 1)
    sizes = tensor_int(c, 'size', c.st, ite(ge(n, IC(1)), tm.scale(add(n, IC(1)), 4), IC(0)), -2 ** 31, MAXSIZE)
    nm = Region('names', 'cells', None, writable=False); nm.es = 4096; nm.stepped = True; c.st.mem[nm] = {}
    class HN:
        def load(self, ex, st, ty, p, line): raise Unsupported('a name is read character by character')
        store = load
    nm.handler = HN()
    lst = Region('activation_list', 'cells', ite(ge(n, IC(1)), tm.scale(n, 8), IC(0)), writable=False, align=16); lst.es = 8; lst.stepped = True; c.st.mem[lst] = {}
    class HL:
        def load(self, ex, st, ty, p, line):
            k = ex.elemidx(p.off, 8)
            if k is None: raise Unsupported('access to the list of activation names')
            return PIte([(app('has_name', B, k), Ptr(nm, tm.scale(k, 4096))), (TRUE, NULL)])
        def store(self, ex, st, ty, v, p, line): pass
    lst.handler = HL()
    fn = FnCodes(['linear'], 'named_activation')
    bl = Blocks(c, 'blocks'); lm = LayerMem(c, bl, n, fn)
    def getact(ex, f, it, st, a):
        out = None
        for cond, q in reversed(heap.feasible(st, a[0])):
            by = cstr.conc(q) if q.base is not None and not isinstance(q.base, Fn) else None
            if q.base is nm:
                k = tm.scale(q.off, Fraction(1, 4096)); x = PIte([(app('resolved', B, k), Ptr(Fn.get('named_activation'), k)), (TRUE, NULL)])
            elif by == b'linear': x = Ptr(Fn.get('linear'), 0)
            else: ex.oblige(st, it.line, 'call', not_(cond), 'get_activation_func is given a name of the list'); x = NULL
            out = x if out is None else vite(cond, x, out)
        st.env[it.res] = out; return st
    ex.contracts = dict(malloc=lm.malloc, calloc=lm.calloc, posix_memalign=bl.posix_memalign, get_activation_func=getact)
    return n, sizes, lst, bl, lm

@contract('neuralnet_create', {'C17': None, 'C11': None, 'C03': SAFETY}, ['nosimd', 'avx512'], functions=['neuralnet_create', '_weights_memory_allocate', '_weights_memory_free'])
def create(cfg):
    # the first allocation of a weight or bias block that fails: none, one of the first n, or one of the next n
    out = []
    for case in ('none', 'first', 'second'):
        c = Ctx(cfg, SRC); ex = c.ex
        n, sizes, lst, bl, lm = create_setup(c)
        if case == 'none': bl.fails = False; F = None
        else:
            F = bl.first_failure = c.int('failing', 0, 2 ** 62)
            if case == 'first': c.st.assume(lt(F, n)); ex.hints = [F]
            else: c.st.assume(and_(ge(F, n), lt(F, mul(IC(2), n)))); ex.hints = [n, sub(F, n)]
        create_case(c, cfg, n, sizes, lst, bl, lm, F); out.append(c)
    return out

def create_case(c, cfg, n, sizes, lst, bl, lm, F):
    ex = c.ex
    rv = c.call('neuralnet_create', n, sizes, lst)
    nl = layout('neuralnet.h', 'neuralnet_t', NET, cfg)
    nnr = ex.heap[0] if getattr(ex, 'heap', None) else None
    S = lambda k: app('size', I, k)
    seen = {'null': 0, 'net': 0}
    for cond, p in heap.feasible(c.st, rv):
        s = c.st.fork(); s.assume(cond)
        if isnull(s, p):
            seen['null'] += 1
            # refused only for a reason
            s1 = s.fork(); s1.assume(ge(n, IC(1)))
            for r in list(getattr(ex, 'heap', [])) + [x.reg for x in lm.made]: s1.assume(r.ok)
            for t in terms_of(s1.facts(), 'size'): s1.assume(or_(lt(t.args[1], IC(0)), gt(t.args[1], n), ge(t, IC(1))))
            if F is not None: s1.assume(FALSE)
            for t in terms_of(s1.facts(), 'ok_blocks'): s1.assume(t)
            c.post(TRUE if solve.infeasible(s1.facts()) else FALSE, 'refused only when a size or the number of layers is not positive or memory runs out', s)
            for r in list(getattr(ex, 'heap', [])) + [x.reg for x in lm.made]: c.post_eq(heap.live(s, r), IC(0), 'refused: nothing stays allocated', s)
            b = fresh('b', I); s2 = s.fork(); s2.assume(ge(b, IC(0))); loops.instantiate(s2, b, sub(b, n))
            c.post(ne(s2.mem[bl.state].at(b), IC(1)), 'refused: no weight or bias block stays allocated', s2)
            continue
        seen['net'] += 1
        c.post(TRUE if ispos(p, nnr, IC(0)) else FALSE, 'a new network is returned', s)
        if not ispos(p, nnr, IC(0)) or not lm.made: continue
        c.post(ge(n, IC(1)), 'a network has at least one layer', s)
        m = s.mem[nnr]; cell = lambda f: m.get(nl[f], (0, None))[1]
        sa = lm.made[0]
        x = cell('layer'); la = heap.feasible(s, x) if x is not None else []
        c.post(TRUE if len(la) == 1 and ispos(la[0][1], sa.reg, IC(0)) else FALSE, 'layer array', s)
        c.post_eq(cell('n_layers') if isinstance(cell('n_layers'), T) else IC(-1), n, 'number of layers', s)
        x = cell('loss'); c.post(TRUE if x is not None and all(isnull(s, q) for _, q in heap.feasible(s, x)) else FALSE, 'no loss function is set', s)
        c.post_eq(heap.live(s, nnr), IC(1), 'the network is allocated', s); c.post_eq(heap.live(s, sa.reg), IC(1), 'the layer array is allocated', s)
        r = fresh('r', I); s.assume(and_(ge(r, IC(0)), lt(r, n))); loops.instantiate(s, r, add(r, IC(1)), n)
        for t in (S(r), S(add(r, IC(1)))): s.assume(and_(ge(t, IC(-2 ** 31)), le(t, IC(MAXSIZE))))
        c.post(and_(ge(S(r), IC(1)), ge(S(add(r, IC(1))), IC(1))), 'all sizes are positive', s)
        F = lambda nm: s.mem[sa.f[nm]].at(r)
        c.post_eq(F('n_input'), S(r), 'input size of each layer', s); c.post_eq(F('n_output'), S(add(r, IC(1))), 'output size of each layer', s)
        want = {'weight': mul(IC(4), mul(S(r), S(add(r, IC(1))))), 'bias': mul(IC(4), S(add(r, IC(1))))}
        idx = {}
        for nm in ('weight', 'bias'):
            code = solve.simp(F(nm), s.facts()); c.post(ge(code, IC(1)), '%s of each layer is allocated' % nm, s)
            b = sub(code, IC(1)); idx[nm] = b
            c.post_eq(s.mem[bl.state].at(b), IC(1), '%s block of each layer is allocated' % nm, s)
            c.post(ge(s.mem[bl.size].at(b), want[nm]), '%s block of each layer is large enough' % nm, s)
            c.post_eq(intmod(s.mem[bl.align].at(b), IC(c.align)), IC(0), '%s block of each layer is aligned for the instruction set' % nm, s)
        # different blocks: the block number is injective in (layer, kind)
        r2 = fresh('r2', I); s2 = s.fork(); s2.assume(and_(ge(r2, IC(0)), lt(r2, n))); loops.instantiate(s2, r2)
        for a in ('weight', 'bias'):
            other = sub(s2.mem[sa.f[a]].at(r2), IC(1))
            for b in ('weight', 'bias'):
                s3 = s2.fork()
                if a == b: s3.assume(ne(r, r2))
                c.post(ne(idx[b], other), 'blocks of different layers are different (%s, %s)' % (a, b), s3)
        hn, rs = app('has_name', B, r), app('resolved', B, r)
        c.post_eq(F('activation_func'), ite(and_(hn, rs), add(r, IC(2)), IC(1)), 'each layer has the named activation, or linear', s)
        # nothing else is allocated
        b = fresh('b', I); s2 = s.fork(); s2.assume(ge(b, mul(IC(2), n))); c.post(ne(s2.mem[bl.state].at(b), IC(1)), 'two blocks per layer', s2)
        c.satisfiable(s)
    if F is None: c.post(TRUE if seen['net'] else FALSE, 'valid arguments give a network')

@contract('neuralnet_free', {'C17': None}, ['nosimd'], functions=['neuralnet_free', '_weights_memory_free'])
def nnfree(cfg):
    out = []
    for case in ('null', 'net'):
        c = Ctx(cfg, SRC); ex = c.ex; ex.heap_may_fail = False
        if case == 'null': c.call('neuralnet_free', NULL); c.satisfiable(); out.append(c); continue
        n = c.int('n_layers', 1, INT_MAX - 1)
        bl = Blocks(c, 'blocks'); lm = LayerMem(c, bl, n, FnCodes(['linear'], 'named_activation'))
        nl = layout('neuralnet.h', 'neuralnet_t', NET, cfg)
        nn, _ = heap.newregion(ex, c.st, IC(nl['sizeof']), 16)
        sa, ok = lm.make(ex, c.st, None); sa.reg.size = tm.scale(n, sa.S); c.st.assume(ok); c.st.ghost[('a', sa.reg)] = IC(1)
        # a valid network; weight and bias of layer k are blocks w(k) = 2k and b(k) = 2k + 1, or absent
        for nm, o in (('weight', 1), ('bias', 2)):
            r = sa.f[nm]; v = fresh('r', I); c.st.mem[r] = Arr(v, add(mul(IC(2), v), IC(o)))
        v = fresh('r', I); c.st.mem[bl.state] = Arr(v, ite(and_(ge(v, IC(0)), lt(v, mul(IC(2), n))), IC(1), IC(0)))
        c.st.mem[nn] = {nl['n_layers']: (4, n), nl['layer']: (8, Ptr(sa.reg, 0)), nl['loss']: (8, Ptr(Fn.get('loss_fn'), 0))}
        ex.contracts = dict(posix_memalign=bl.posix_memalign)
        c.call('neuralnet_free', nn)
        c.post_eq(heap.live(c.st, nn), IC(0), 'the network is released'); c.post_eq(heap.live(c.st, sa.reg), IC(0), 'the layer array is released')
        b = fresh('b', I); s = c.st.fork(); s.assume(and_(ge(b, IC(0)), lt(b, mul(IC(2), n))))
        c.post_eq(s.mem[bl.state].at(b), IC(2), 'every weight and bias block is released', s)
        c.satisfiable(); out.append(c)
    return out
