"""Loading a network (C11): the archive holds any number of arrays of any type and shape, in any order; any
allocation may fail.  The list of arrays is what npy_array_list_load returns (C10); the network comes from
neuralnet_create (C17); names are resolved by get_activation_func (C08)."""
from harness import *
import steps, heap, blocks, loops, chain, execu, intrinsics
from blocks import StructArray, iarr
from layout import layout
from nets import NET
from chain import Chain, Family

SRC = ['src/neuralnet.c', INLINES]
AF = ['data', 'shape', 'ndim', 'endianness', 'typechar', 'elem_size', 'fortran_order']
SZ = 2 ** 40              # distance of the data blocks
PMAX = 2 ** 63 - 1
def isnull(st, p): return isinstance(p, Ptr) and p.base is None and prove(st.facts(), eq(p.off, IC(0)))
def one(st, p, what):
    la = heap.feasible(st, p)
    if len(la) != 1: raise Unsupported('%s is a conditional pointer' % what)
    return la[0][1]

def nonzero(t):
    if t.op != 'ite': return ne(t, IC(0))
    c, a, b = t.args[0], nonzero(t.args[1]), nonzero(t.args[2]); return or_(and_(c, a), and_(not_(c), b))

class Files(Family):
    """the arrays of the archive: array k is well-formed (C10)"""
    def __init__(self, c, n):
        Family.__init__(self, c, 'arrays'); self.n = n; self.L = layout('npy_array.h', 'npy_array_t', AF, c.cfg); self.reg.writable = False
        self.data = DataBlocks(c, 'data')
    def A(self, nm, k, sort=I): return app('file_' + nm, sort, k)
    def wellformed(self, st, k):
        A = self.A
        st.assume(and_(ge(A('ndim', k), IC(0)), le(A('ndim', k), IC(32)), ge(A('elem', k), IC(1)), le(A('elem', k), IC(2 ** 31 - 1))))
        for f in ('sh0', 'sh1'): st.assume(and_(ge(A(f, k), IC(0)), le(A(f, k), IC(PMAX))))
        st.assume(or_(ne(A('ndim', k), IC(1)), le(mul(A('sh0', k), A('elem', k)), IC(PMAX))))
        st.assume(or_(ne(A('ndim', k), IC(2)), le(mul(mul(A('sh0', k), A('sh1', k)), A('elem', k)), IC(PMAX))))
        st.assume(and_(ge(A('type', k), IC(1)), le(A('type', k), IC(127)), ge(A('end', k), IC(0)), le(A('end', k), IC(127))))
    def load(self, ex, st, ty, p, line):
        o = int(pd(p.off).get((), 0)) % self.reg.es; k = sub(p.off, IC(o))
        if any(c % self.reg.es for c in pd(k).values()): raise Unsupported('offset %s into an array of the file' % pp(p.off)[:60])
        k = tm.scale(k, Fraction(1, self.reg.es))
        ex.oblige(st, line, 'bounds', and_(ge(k, IC(0)), lt(k, self.n)), 'an array of the file')
        ex.oblige_eq(st, line, 'heap', st.ghost[('listfreed',)], IC(0), 'the arrays are not used after their release')
        self.wellformed(st, k); L = self.L
        if o == L['data']: return Ptr(self.data.reg, tm.scale(k, SZ))
        for d in (0, 1):
            if o == L['shape'] + 8 * d:
                ex.oblige(st, line, 'bounds', gt(self.A('ndim', k), IC(d)), 'the array has this dimension'); return self.A('sh%d' % d, k)
        if o == L['ndim']: return self.A('ndim', k)
        if o == L['endianness']: return self.A('end', k)
        if o == L['typechar']: return self.A('type', k)
        if o == L['elem_size']: return self.A('elem', k)
        if o == L['fortran_order']: return ite(self.A('fortran', k, B), IC(1), IC(0))
        raise Unsupported('field at offset %d of an array' % o)

class DataBlocks(Family):
    def __init__(self, c, name): Family.__init__(self, c, name, SZ); self.reg.writable = False; self.reg.es = 1
    def at(self, p):
        """(array, byte) a pointer refers to"""
        k, o = {}, {}
        for m, c in pd(p.off).items(): (k if c % SZ == 0 else o)[m] = c
        return tm.scale(tm.frompd(k, I), Fraction(1, SZ)), tm.frompd(o, I)

class FileList(Chain):
    def usable(self, ex, st, k, line): ex.oblige_eq(st, line, 'heap', st.ghost[('listfreed',)], IC(0), 'the list is not used after its release')
    def freed(self, ex, st, p, line, what): ex.oblige(st, line, 'heap', FALSE, '%s of an element of the list' % what)

class Symbolic:
    """contract of malloc and calloc for blocks of symbolic size: an array of pointers, or text"""
    def __init__(self, m): self.m, self.made = m, []
    def block(self, ex, st, r, size):
        r.size = size; r.heap = 'malloc'; r.align = 16; ok = var('alloc_ok!%d' % next(tm._fresh), B); r.ok = ok
        st.ghost[('a', r)] = ite(ok, IC(1), IC(0)); st.ghost[('f', r)] = IC(0); st.assume(gt(r.addr, IC(0))); self.made.append(r)
        return PIte([(ok, Ptr(r, 0)), (TRUE, NULL)])
    def make(self, ex, it, st, size, zero, pointers):
        ex.oblige(st, it.line, 'call', and_(ge(size, IC(0)), le(size, IC(2 ** 64 - 1))), 'the size of the block does not overflow')
        o = PtrArray(self.m, st, size, zero) if pointers else Text(self.m, st, size, zero)
        st.env[it.res] = self.block(ex, st, o.reg, size); return st
    def malloc(self, ex, f, it, st, a):
        if a[0].op == 'const': st.env[it.res] = heap._malloc(ex, it, st, 'malloc', a); return st
        return self.make(ex, it, st, a[0], False, all(c % 8 == 0 for c in pd(a[0]).values()))
    def calloc(self, ex, f, it, st, a):
        size = mul(a[0], a[1])
        if size.op == 'const': st.env[it.res] = heap._calloc(ex, it, st, 'calloc', a); return st
        return self.make(ex, it, st, size, True, all(c % 8 == 0 for c in pd(size).values()))

class PtrArray:
    """pointers to arrays of the file, or to the rows of the text; 0 is NULL, k + 1 refers to number k"""
    def __init__(self, m, st, size, zero):
        self.m = m; self.reg = Region('pointers%d' % next(tm._fresh), 'cells', size, align=16); self.reg.es = 8; self.reg.stepped = True; self.reg.handler = self
        st.mem[self.reg] = {}; self.target = None; m.ptrs.append(self)
        self.f = iarr(st, self.reg.name + '_content', None, (lambda v: IC(0)) if zero else None)
    def usable(self, ex, st, line): ex.oblige(st, line, 'heap', and_(eq(st.ghost[('f', self.reg)], IC(0))), 'the block is not used after its release')
    def load(self, ex, st, ty, p, line):
        self.usable(ex, st, line)
        k = ex.elemidx(p.off, 8)
        if k is None or ty[0] != 'ptr': raise Unsupported('access to an array of pointers')
        if k.op == 'const': loops.instantiate(st, k)
        facts = st.facts(); code = solve.simp(st.mem[self.f].at(k), facts)
        if code.op == 'ite' and code.args[2].op == 'app' and str(code.args[2].args[0]).startswith('init_'):
            ex.oblige(st, line, 'bounds', code.args[0], 'a pointer that was stored'); code = code.args[1]
        nz = nonzero(code)
        if prove(facts, not_(nz)): return NULL
        if self.target is None: raise Unsupported('an array of pointers is read before anything is stored in it')
        code = blocks.leaf(solve.simp(code, facts + [nz]), facts + [nz])
        q = self.target(sub(code, IC(1)))
        if prove(facts, nz): return q
        if any(r.ok in fv(nz) and not prove(facts, r.ok) for r in self.m.sym.made): return PIte([(nz, q), (TRUE, NULL)])
        ex.oblige(st, line, 'null', nz, 'a pointer that was stored'); return q
    def store(self, ex, st, ty, v, p, line):
        self.usable(ex, st, line); k = ex.elemidx(p.off, 8)
        if k is None: raise Unsupported('access to an array of pointers')
        out = None
        for c, q in reversed(alts(v)):
            if q.base is None: x = IC(0) if q.off is IC(0) else sub(IC(0), fresh('badptr', I))
            elif q.base is self.m.files.reg:
                if any(c_ % self.m.files.reg.es for c_ in pd(q.off).values()): raise Unsupported('pointer into an array is stored')
                x = add(tm.scale(q.off, Fraction(1, self.m.files.reg.es)), IC(1)); self.aim(lambda k: Ptr(self.m.files.reg, tm.scale(k, self.m.files.reg.es)), 'files')
            elif isinstance(getattr(q.base, 'handler', None), Text):
                t = q.base.handler; x = add(t.row(q.off), IC(1)); self.aim(lambda k: Ptr(t.reg, mul(k, t.width())), t)
            else: raise Unsupported('pointer to %s is stored' % (q.base,))
            out = x if out is None else ite(c, x, out)
        ex.store(st, blocks.I64, out, Ptr(self.f, tm.scale(k, 8)), 8, line)
    def aim(self, fn, kind):
        if self.target is not None and self.kind is not kind: raise Unsupported('one array of pointers to different things')
        self.target, self.kind = fn, kind

class Text:
    """the names: rows of elem_size + 1 characters"""
    def __init__(self, m, st, size, zero):
        self.m, self.zero = m, zero; self.reg = Region('text', 'cells', size, align=16); self.reg.es = 1; self.reg.stepped = True; self.reg.handler = self
        st.mem[self.reg] = {}; m.texts.append(self); self.rows = None
    def width(self): return add(self.m.files.A('elem', self.m.S), IC(1))
    def row(self, off):
        """q with off == q * width"""
        e = self.m.files.A('elem', self.m.S); q = {}
        for mm, c in pd(off).items():
            if e in mm: l = list(mm); l.remove(e); q[tuple(l)] = c
        q = tm.frompd(q, I)
        if mul(q, self.width()) is not off: raise Unsupported('offset %s into the names' % pp(off)[:100])
        return q
    def load(self, ex, st, ty, p, line): raise Unsupported('a character of a name is read')
    def store(self, ex, st, ty, v, p, line): raise Unsupported('a character of a name is written')
    def memcpy(self, ex, st, d, s, k, line):
        m = self.m; r = self.row(d.off)
        if s.base is not m.files.data.reg: ex.oblige(st, line, 'bounds', FALSE, 'the names are copied from the file'); return
        a, o = m.files.data.at(s); e = m.files.A('elem', m.S)
        ex.oblige_eq(st, line, 'heap', st.ghost[('listfreed',)], IC(0), 'the arrays are not used after their release')
        ex.oblige_eq(st, line, 'bounds', a, m.S, 'the names are those of the file'); ex.oblige_eq(st, line, 'post', o, mul(r, e), 'row by row')
        ex.oblige(st, line, 'bounds', and_(ge(r, IC(0)), lt(r, self.row(self.reg.size)), lt(r, m.files.A('sh0', m.S))), 'a row of the names')
        ex.oblige_eq(st, line, 'post', k, e, 'each name is copied completely')
        m.event(ex, st, 'rows', r, line)

class Params(Family):
    """the weights, or biases, of the new network"""
    def __init__(self, m, name, which): Family.__init__(self, m.c, name, SZ); self.m, self.which = m, which
    def at(self, p):
        if any(c % SZ for c in pd(p.off).values()): raise Unsupported('pointer into the middle of the parameters')
        return tm.scale(p.off, Fraction(1, SZ))
    def extent(self, r):
        i, o = self.m.size_at(r), self.m.size_at(add(r, IC(1)))
        return mul(IC(4), mul(i, o)) if self.which == 0 else mul(IC(4), o)
    def valid(self, ex, st, r, k, line):
        ex.oblige(st, line, 'bounds', and_(ge(r, IC(0)), lt(r, self.m.net_n)), 'a layer of the network'); ex.oblige(st, line, 'bounds', ge(k, IC(0)), 'length')
        st2 = self.m.inst(st, r); ex.oblige(st2, line, 'bounds', le(k, self.extent(r)), 'within the parameters of the layer')
    def memset(self, ex, st, p, v, k, line):
        r = self.at(p); self.valid(ex, st, r, k, line)
        ex.oblige(st, line, 'post', or_(gt(r, st.ghost[('done', self.name)]), and_(eq(r, st.ghost[('done', self.name)]), eq(st.ghost[('ev', self.name)], IC(0)))), 'not after they are filled in')
    def memcpy(self, ex, st, d, s, k, line):
        m = self.m; r = self.at(d); self.valid(ex, st, r, k, line)
        if s.base is not m.files.data.reg: ex.oblige(st, line, 'bounds', FALSE, 'the parameters are copied from the file'); return
        a, o = m.files.data.at(s)
        ex.oblige_eq(st, line, 'heap', st.ghost[('listfreed',)], IC(0), 'the arrays are not used after their release')
        s2 = m.inst(st, r)
        ex.oblige_eq(s2, line, 'post', a, m.pos(add(mul(IC(2), r), IC(self.which))), '%s of each layer are those of the file' % self.name)
        ex.oblige_eq(s2, line, 'post', o, IC(0), 'from their beginning'); ex.oblige_eq(s2, line, 'post', k, self.extent(r), 'all %s of the layer' % self.name)
        F = m.files.A; full = mul(F('sh0', a), F('sh1', a)) if self.which == 0 else F('sh0', a)
        ex.oblige(s2, line, 'bounds', and_(eq(F('elem', a), IC(4)), eq(F('ndim', a), IC(2 - self.which)), le(k, mul(IC(4), full))), 'within the data of the array')
        m.event(ex, st, self.name, r, line)

class Model:
    def __init__(self, cfg):
        self.c = c = Ctx(cfg, SRC); ex = c.ex
        self.n = c.int('n_arrays', 1, 2 ** 31 - 1); self.S = c.int('first_string', 0, 2 ** 31 - 1); c.st.assume(le(self.S, self.n))
        self.files = Files(c, self.n); self.ptrs, self.texts = [], []
        self.list = FileList(c, 'list', 'npy_array_list.h', 'npy_array_list_t', {'array': (self.files, False), 'next': ('next', True)}, self.n, writable=False)
        self.fname = cstr.symregion(ex, c.st, 'filename'); self.okload = var('archive_ok', B)
        self.params = [Params(self, 'weights', 0), Params(self, 'biases', 1)]; self.net = None
        g = c.st.ghost; g[('listfreed',)] = IC(0); g[('loaded',)] = IC(0); g[('k',)] = IC(0); g['case'] = IC(0)
        for k in ('rows', 'weights', 'biases'): g[('done', k)] = IC(0); g[('ev', k)] = IC(0)
        self.sym = Symbolic(self)
        ex.contracts = dict(npy_array_list_load=self.load, npy_array_list_length=self.length, npy_array_list_free=self.free, malloc=self.sym.malloc, calloc=self.sym.calloc,
                            get_activation_func=self.getact, neuralnet_create=self.create)
        ex.loop_hooks = [self.scan_loop, self.copy_loop]; ex.split_tails, ex.split_all = True, 2
        self.K = c.int('k', 0, 2 ** 31 - 1); self.scans = 0; self.layervars = []
    def pos(self, j): return ite(lt(j, self.S), j, add(j, IC(1)))          # number of the j-th array that is not the names
    def inst(self, st, r):
        s = st.fork(); r1 = add(r, IC(1)); loops.instantiate(s, r, r1, sub(r, IC(1)), mul(IC(2), r), add(mul(IC(2), r), IC(1)), mul(IC(2), r1)); 
        return s
    def event(self, ex, st, kind, r, line):
        ex.oblige_eq(st, line, 'post', r, st.ghost[('done', kind)], '%s: one layer after the other' % kind)
        ex.oblige_eq(st, line, 'post', st.ghost[('ev', kind)], IC(0), '%s: once' % kind); st.ghost[('ev', kind)] = IC(1)
    def total(self, kind): return self.texts[-1].row(self.texts[-1].reg.size) if kind == 'rows' else self.net_n
    # ---- contracts
    def load(self, ex, f, it, st, a):
        p = one(st, a[0], 'file name'); ex.oblige(st, it.line, 'call', TRUE if p.base is self.fname and p.off is IC(0) else FALSE, 'the named file is loaded')
        ex.oblige_eq(st, it.line, 'call', st.ghost[('loaded',)], IC(0), 'once'); st.ghost[('loaded',)] = ite(self.okload, IC(1), IC(0))
        st.env[it.res] = PIte([(self.okload, self.list.head()), (TRUE, NULL)]); return st
    def islist(self, ex, st, p, line):
        q = one(st, p, 'list'); ex.oblige(st, line, 'call', TRUE if q.base is self.list.reg and q.off is IC(0) else FALSE, 'the list of arrays')
        ex.oblige(st, line, 'heap', and_(eq(st.ghost[('loaded',)], IC(1)), eq(st.ghost[('listfreed',)], IC(0))), 'the list is not released yet')
    def length(self, ex, f, it, st, a): self.islist(ex, st, a[0], it.line); st.env[it.res] = self.n; return st
    def free(self, ex, f, it, st, a):
        if isnull(st, one(st, a[0], 'list')): return st
        self.islist(ex, st, a[0], it.line); st.ghost[('listfreed',)] = IC(1); return st
    def resolved(self, r): return app('resolved', B, r)
    def getact(self, ex, f, it, st, a):
        q = one(st, a[0], 'name'); t = getattr(q.base, 'handler', None)
        if not isinstance(t, Text): raise Unsupported('get_activation_func of something else than a name of the file %s %s' % (pp(heap.feasible(st, a[0])[-2][0]) if len(heap.feasible(st,a[0]))>1 else a[0], [pp(x) for x in st.facts()][-20:]))
        r = t.row(q.off)
        ex.oblige_eq(st, it.line, 'heap', st.ghost[('f', t.reg)], IC(0), 'the names are not released yet')
        ex.oblige(st, it.line, 'call', TRUE if t.zero else FALSE, 'every name is terminated')
        ex.oblige(st, it.line, 'call', and_(ge(r, IC(0)), lt(r, st.ghost[('done', 'rows')])), 'the name was copied')
        st.env[it.res] = PIte([(self.resolved(r), Ptr(Fn.get('named_activation'), r)), (TRUE, NULL)]); return st
    def create(self, ex, f, it, st, a):
        n = a[0]; sz, nm = one(st, a[1], 'sizes'), one(st, a[2], 'names'); o = ex.elemidx(sz.off, 4)
        if not isinstance(st.mem.get(sz.base), Arr) or o is not IC(0) or sz.base.es != 4: raise Unsupported('sizes passed to neuralnet_create')
        P = getattr(nm.base, 'handler', None)
        if not isinstance(P, PtrArray) or nm.off is not IC(0): raise Unsupported('names passed to neuralnet_create')
        ex.oblige(st, it.line, 'call', TRUE if self.net is None else FALSE, 'one network is made')
        ex.oblige(st, it.line, 'call', or_(lt(n, IC(1)), and_(ge(sz.base.size, tm.scale(add(n, IC(1)), 4)), ge(nm.base.size, tm.scale(n, 8)))), 'a size for each level and a name for each layer')
        r = fresh('r', I); s = st.fork(); s.assume(and_(ge(r, IC(0)), lt(r, n))); loops.instantiate(s, r)
        ex.oblige_eq(s, it.line, 'call', s.mem[P.f].at(r), add(r, IC(1)), 'name of each layer'); ex.oblige(st, it.line, 'call', ge(st.ghost[('done', 'rows')], n), 'all names were copied')
        if ex.silent: pass
        c = self.c; self.net_n = n; content = st.mem[sz.base]; self.size_at = content.at
        nl = layout('neuralnet.h', 'neuralnet_t', NET, c.cfg)
        self.net = nn = Region('network', 'cells', IC(nl['sizeof']), align=16); self.nl = nl
        sa = StructArray(c, 'layers', 'neuralnet.h', 'layer_t', {'n_input': (1, INT_MAX), 'n_output': (1, INT_MAX), 'weight': FamCode(self.params[0]), 'bias': FamCode(self.params[1]), 'activation_func': None}, n)
        sa.fresh(st); self.sa = sa; sa.reg.writable = False
        for nm_, fn in (('n_input', content.at), ('n_output', lambda v: content.at(add(v, IC(1)))), ('weight', lambda v: add(v, IC(1))), ('bias', lambda v: add(v, IC(1)))):
            v = fresh('r', I); st.mem[sa.f[nm_]] = Arr(v, fn(v))
        st.mem[nn] = {nl['n_layers']: (4, n), nl['layer']: (8, Ptr(sa.reg, 0)), nl['loss']: (8, NULL)}
        st.assume(gt(nn.addr, IC(0)))
        self.valid, self.mem = var('sizes_ok', B), var('create_ok', B); w = self.bad = fresh('bad', I)
        v = fresh('r', I); allok = var('all!%d' % next(tm._fresh), B); loops.FORALL[allok] = (v, add(n, IC(1)), ge(content.at(v), IC(1)))
        st.assume(or_(not_(self.valid), and_(allok, ge(n, IC(1)))))
        st.assume(or_(self.valid, lt(n, IC(1)), and_(ge(w, IC(0)), le(w, n), lt(content.at(w), IC(1)))))
        ok = and_(self.valid, self.mem)
        st.env[it.res] = PIte([(ok, Ptr(nn, 0)), (TRUE, NULL)]); return st
    # ---- loops
    def scan_loop(self, ex, f, L, phis, init, s0, rets):
        """the loop over the list"""
        if not any(isinstance(v, (Ptr, PIte)) and any(q.base is self.list.reg for _, q in heap.feasible(s0, v)) for v in init.values()): return None
        wb = [p for p in self.ptrs if p.reg in s0.mem]
        if len(wb) != 1: raise Unsupported('%d arrays of pointers before the list is read' % len(wb))
        wb = wb[0]; old = s0.mem[wb.f]; K, S, A = self.K, self.S, self.files.A
        if wb.target is None: wb.aim(lambda k: Ptr(self.files.reg, tm.scale(k, self.files.reg.es)), 'files')
        def content(m): return lambda v: ite(and_(ge(v, IC(0)), lt(v, m)), add(self.pos(v), IC(1)), old.at(v))
        M = lambda st: sub(st.ghost[('k',)], st.ghost['case'])
        def havoc(ex, st):
            g = st.ghost; case = int(g['case'].args[0]); g[('k',)] = K; st.assume(and_(ge(K, IC(0)), le(K, self.n))); st.assume(gt(K, S) if case else le(K, S))
            self.string(st, K); v = fresh('r', I); st.mem[wb.f] = Arr(v, content(sub(K, IC(case)))(v))
            v = fresh('r', I); loops.record_all(st, v, K, or_(eq(v, S), eq(A('type', v), IC(ord('f')))))
        def entry(ex, st, line): ex.oblige_eq(st, line, 'loop', st.ghost[('loaded',)], IC(1), 'the file was loaded')
        def step(ex, st, line):
            k = sub(st.ghost[('k',)], IC(1)); m = M(st)
            ex.oblige(st, line, 'loop', lt(k, self.n), 'an element of the list')
            ex.oblige(st, line, 'loop', or_(eq(k, S), eq(A('type', k), IC(ord('f')))), 'arrays are numbers, but for one array of names')
            r = fresh('r', I); s = st.fork(); s.assume(ge(r, IC(0))); s.assume(lt(r, m)); ex.oblige_eq(s, line, 'loop', s.mem[wb.f].at(r), add(self.pos(r), IC(1)), 'arrays in the order of the file')
        h = steps.StepLoop(set(), {wb.f}, havoc, entry, step, lambda ex, st: [M(st), st.ghost[('k',)], tm.scale(st.ghost[('k',)], chain.STRIDE)])
        def latch(st): st.ghost[('k',)] = add(st.ghost[('k',)], IC(1))
        h.latch_ghost = latch; h.cases = [0, 1]
        h.pcands = lambda ex, st: [NULL if st.ghost['case'] is IC(0) else Ptr(self.files.reg, tm.scale(S, self.files.reg.es))]
        def split(ex, st):
            out = []; k1 = add(st.ghost[('k',)], IC(1))
            for d in (0, 1):
                s = st.fork(); s.assume(gt(k1, S) if d else le(k1, S)); self.string(s, k1)
                if not solve.infeasible(s.facts()): s.ghost['case'] = IC(d); out.append(s)
            return out
        h.split = split
        if not ex.silent: self.scans += 1
        return steps.step_loop(h, ex, f, L, phis, init, s0, rets)
    def string(self, st, *ks):
        """S is the first array of names, or the number of arrays"""
        A = self.files.A; st.assume(or_(ge(self.S, self.n), eq(A('type', self.S), IC(ord('S')))))
        for k in ks: st.assume(or_(lt(k, IC(0)), ge(k, self.S), ne(A('type', k), IC(ord('S')))))
    def copy_loop(self, ex, f, L, phis, init, s0, rets):
        """a loop that copies the names, the weights or the biases, one layer in each iteration"""
        if not steps.loop_calls(ex, f, L.blocks, {'llvm.memcpy.p0.p0.i64', 'memcpy', 'llvm.memmove.p0.p0.i64', 'memmove'}): return None
        g = s0.fork(); n0 = len(ex.obls); ex.silent += 1
        try: latches, _, _ = ex.region(f, L, [(None, g)])
        finally: ex.silent -= 1
        kinds = [k for k in ('rows', 'weights', 'biases') if any(ls.ghost[('ev', k)] is not s0.ghost[('ev', k)] for _, ls in latches)]
        if not kinds: return None
        K = self.c.int('layer%d' % len(self.layervars), 0, 2 ** 31 - 1); self.layervars.append(K); tot = self.total(kinds[0]); e = self.files.A('elem', self.S)
        # arrays of pointers to the rows, filled in by the same loop
        stored = [w for w in self.ptrs if w.f in s0.mem and kinds == ['rows'] and any(ls.mem.get(w.f) is not s0.mem[w.f] for _, ls in latches)]; old = {w: s0.mem[w.f] for w in stored}
        def havoc(ex, st):
            for w in stored: v = fresh('r', I); st.mem[w.f] = Arr(v, ite(and_(ge(v, IC(0)), lt(v, K)), add(v, IC(1)), old[w].at(v)))
            st.ghost[('k',)] = K; st.assume(and_(ge(K, IC(0)), le(K, tot)))
            for k in kinds: st.ghost[('done', k)] = K; st.ghost[('ev', k)] = IC(0)
            s = self.inst(st, K); st.pc = s.pc; st._facts = None
        def entry(ex, st, line):
            for k in kinds: ex.oblige(st, line, 'loop', and_(eq(st.ghost[('done', k)], IC(0)), eq(st.ghost[('ev', k)], IC(0))), '%s: nothing is copied before' % k)
            ex.oblige(st, line, 'loop', ge(tot, IC(0)), 'number of layers')
        def step(ex, st, line):
            for k in kinds: ex.oblige_eq(st, line, 'loop', st.ghost[('done', k)], add(K, IC(1)), '%s of each layer are copied' % k)
            ex.oblige(st, line, 'loop', lt(K, tot), 'a layer')
            for w in stored:
                r = fresh('r', I); s = st.fork(); s.assume(and_(ge(r, IC(0)), le(r, K))); ex.oblige_eq(s, line, 'loop', s.mem[w.f].at(r), add(r, IC(1)), 'pointers to the rows')
        def latch(st):
            st.ghost[('k',)] = add(K, IC(1))
            for k in kinds: st.ghost[('done', k)] = add(st.ghost[('done', k)], st.ghost[('ev', k)]); st.ghost[('ev', k)] = IC(0)
        def cands(ex, st):
            k = st.ghost[('k',)]; return [k, mul(k, e), add(tm.scale(self.S, SZ), mul(k, e)), mul(k, add(e, IC(1))), mul(IC(2), k), tm.scale(k, SZ), tm.scale(k, 8), tm.scale(k, 16)] + ([tm.scale(k, self.sa.S)] if self.net else [])
        s0 = s0.fork(); s0.ghost[('k',)] = IC(0); s0.ghost['case'] = IC(0)
        h = steps.StepLoop(set(), {w.f for w in stored}, havoc, entry, step, cands); h.latch_ghost = latch
        return steps.step_loop(h, ex, f, L, phis, init, s0, rets)

class FamCode:
    """pointer to block k of a family, stored as k + 1"""
    def __init__(self, fam): self.fam = fam
    def decode(self, ex, st, code): return Ptr(self.fam.reg, tm.scale(sub(code, IC(1)), SZ))
    def encode(self, ex, st, v): raise Unsupported('the parameters of a network are replaced')

def inr(q, x): return and_(ge(q, IC(0)), lt(q, x))
def whole(A, S, n, h):
    """a file is consistent: the array of names; two arrays for each of the h layers"""
    return [lt(S, n), eq(A('type', S), IC(ord('S'))), eq(sub(n, IC(1)), mul(IC(2), h)), ge(h, IC(1)), and_(eq(A('ndim', S), IC(1)), eq(A('sh0', S), h))]
def other(A, S, n, k):
    """array k"""
    return [or_(not_(inr(k, n)), eq(k, S), eq(A('type', k), IC(ord('f'))))]
def param(A, S, n, pos, j):
    """the j-th array that is not the names"""
    p = pos(j); return [or_(not_(inr(j, sub(n, IC(1)))), and_(eq(A('type', p), IC(ord('f'))), eq(A('elem', p), IC(4)), not_(A('fortran', p, B)), ne(A('end', p), IC(ord('>')))))]
def layer(A, h, pos, resolved, j):
    """layer j"""
    w, b, w2 = pos(mul(IC(2), j)), pos(add(mul(IC(2), j), IC(1))), pos(mul(IC(2), add(j, IC(1)))); no = not_(inr(j, h))
    return [or_(no, and_(eq(A('ndim', w), IC(2)), ge(A('sh0', w), IC(1)), le(A('sh0', w), IC(INT_MAX)), ge(A('sh1', w), IC(1)), le(A('sh1', w), IC(INT_MAX)))),
            or_(no, and_(eq(A('ndim', b), IC(1)), eq(A('sh0', b), A('sh1', w)))), or_(not_(inr(j, sub(h, IC(1)))), eq(A('sh0', w2), A('sh1', w))), or_(no, resolved(j))]
def spec_types(m, st, ks):
    """the file is consistent, as far as the arrays and layers ks are concerned (instances of the definition)"""
    A, S, n, h = m.files.A, m.S, m.n, m.half
    fs = whole(A, S, n, h)
    for k in ks: fs += other(A, S, n, k) + param(A, S, n, m.pos, k) + layer(A, h, m.pos, m.resolved, k)
    for x in fs: st.assume(x)

@contract('neuralnet_load', {'C11': None, 'C03': SAFETY}, ['nosimd'], functions=['neuralnet_load', '_arrays_consistent', '_activation_names_from_npy'])
def load(cfg):
    m = Model(cfg); c = m.c; ex = c.ex; m.half = c.int('half', 0, 2 ** 30)
    c.call('neuralnet_load', m.fname)
    c.post(TRUE if m.scans else FALSE, 'the arrays of the file are read')
    seen = {'null': 0, 'net': 0}
    for st, rv in ex.rets:
        for cond, p in heap.feasible(st, rv):
            s = st.fork(); s.assume(cond)
            if solve.infeasible(s.facts()): continue
            c.post_eq(s.ghost[('loaded',)], ite(m.okload, IC(1), IC(0)), 'the file is read', s)
            c.post_eq(s.ghost[('listfreed',)], ite(m.okload, IC(1), IC(0)), 'the arrays of the file are released', s)
            for r in list(getattr(ex, 'heap', [])) + m.sym.made:
                if r in s.mem: c.post_eq(heap.live(s, r), IC(0), 'temporary memory is released', s)
            if isnull(s, p): seen['null'] += 1; refused(c, m, s)
            else: seen['net'] += 1; loaded(c, m, s, p)
    c.post(TRUE if seen['null'] and seen['net'] else FALSE, 'consistent files are loaded, others refused')
    c.satisfiable(); return c

def refused(c, m, s):
    """only for a reason"""
    s1 = s.fork(); s1.assume(m.okload)
    for r in list(getattr(c.ex, 'heap', [])) + m.sym.made: s1.assume(r.ok)
    if m.net is not None: s1.assume(m.mem)
    xs = set()
    for f in s1.facts(): xs |= {v for v in fv(f) if v.sort == I}
    m.string(s1, *xs)
    ts = list(xs) + [mul(IC(2), x) for x in xs] + [add(mul(IC(2), x), IC(1)) for x in xs] + [IC(0)] + [sub(x, IC(1)) for x in xs]
    spec_types(m, s1, ts)
    c.post(TRUE if solve.infeasible(s1.facts()) else FALSE, 'a file is refused only when it is not consistent or memory runs out', s1)

def loaded(c, m, s, p):
    A, S, n = m.files.A, m.S, m.n
    ok = m.net is not None and p.base is m.net and p.off is IC(0)
    c.post(TRUE if ok else FALSE, 'the new network is returned', s)
    if not ok: return
    m.string(s)
    h = m.half; N = m.net_n
    c.post(lt(S, n), 'the file has names', s); c.post_eq(mul(IC(2), N), sub(n, IC(1)), 'two arrays for each layer', s); c.post(ge(N, IC(1)), 'one layer at least', s)
    c.post(and_(eq(A('ndim', S), IC(1)), eq(A('sh0', S), N)), 'a name for each layer', s)
    r = fresh('r', I); RANGES[r] = (Fraction(0), Fraction(2 ** 31)); s1 = s.fork(); s1.assume(and_(ge(r, IC(0)), lt(r, N)))
    s1 = m.inst(s1, r); w, b = m.pos(mul(IC(2), r)), m.pos(add(mul(IC(2), r), IC(1))); wn = m.pos(add(mul(IC(2), r), IC(2)))
    k = fresh('k', I); RANGES[k] = (Fraction(0), Fraction(2 ** 31)); s2 = s.fork(); s2.assume(and_(ge(k, IC(0)), lt(k, n))); loops.instantiate(s2, k, sub(k, IC(1)))
    c.post(or_(eq(k, S), eq(A('type', k), IC(ord('f')))), 'all other arrays are numbers', s2)
    for x in (w, b): c.post(and_(eq(A('elem', x), IC(4)), not_(A('fortran', x, B)), ne(A('end', x), IC(ord('>')))), 'of the right type, order and byte order', s1)
    c.post(and_(eq(A('ndim', w), IC(2)), eq(A('ndim', b), IC(1)), eq(A('sh0', b), A('sh1', w))), 'weights and biases fit', s1)
    s3 = s1.fork(); s3.assume(lt(add(r, IC(1)), N)); c.post_eq(A('sh0', wn), A('sh1', w), 'layers fit', s3)
    cell = lambda f: s.mem[m.net].get(m.nl[f], (0, None))[1]
    c.post_eq(cell('n_layers'), N, 'number of layers', s)
    F = lambda f: s1.mem[m.sa.f[f]].at(r)
    c.post_eq(F('n_input'), A('sh0', w), 'input size of each layer is that of the file', s1); c.post_eq(F('n_output'), A('sh1', w), 'output size of each layer is that of the file', s1)
    for kd in ('weights', 'biases', 'rows'): c.post_eq(s.ghost[('done', kd)], N, {'rows': 'all names are read', 'weights': 'all weights are copied', 'biases': 'all biases are copied'}[kd], s)
    c.post(m.resolved(r), 'every activation is known', s1)
    c.satisfiable(s1)
