"""Saving a network (C11): any number of layers of any size; the arrays of the network are put in a list
(npy_array_list_append, C20), written by npy_array_list_save (C09, C10) and the list is released.
Memory is assumed to suffice while saving."""
from harness import *
import steps, heap, blocks, loops, chain, execu, varargs, bytestr, re
from blocks import StructArray
from layout import layout
from nets import NET
from chain import Chain, Family, STRIDE
import c_load
from c_load import AF, SZ, isnull, one, SRC, whole, other, param, layer

NAMEMAX = 2 ** 10            # longest name of an activation function
LAYERS = 2 ** 20             # number of layers (layers * name length is computed in int)
SORTS = ('list', 'arrays', 'names')

class Names(Family):
    """names of the activation functions: text r is that of layer r"""
    def __init__(self, m): Family.__init__(self, m.c, 'activation_names', SZ); self.m = m; self.reg.writable = False
    def row(self, p):
        if any(c % SZ for c in pd(p.off).values()): raise Unsupported('pointer into the middle of a name')
        return tm.scale(p.off, Fraction(1, SZ))
    def copyfrom(self, ex, st, d, s, k, line):
        m, r = self.m, self.row(s); l = m.namelen(st, r); e = m.width(ex, st, d, line)
        ex.oblige(st, line, 'bounds', or_(eq(k, l), and_(eq(k, add(l, IC(1))), le(k, e))), 'the whole name is copied')
        m.row(ex, st, d, r, e, k, line)

class Chained(Chain):
    def load(self, ex, st, ty, p, line):
        ex.oblige_eq(st, line, 'heap', st.ghost[('len',)], self.n, 'the list is complete'); return Chain.load(self, ex, st, ty, p, line)

class Save:
    def __init__(self, cfg):
        self.c = c = Ctx(cfg, SRC); ex = c.ex; ex.heap_may_fail = False; st = c.st
        self.N = N = c.int('n_layers', 1, LAYERS); self.total = add(mul(IC(2), N), IC(1))
        self.fa, self.fn = Family(c, 'arrays'), Family(c, 'names')
        self.list = Chained(c, 'list', 'npy_array_list.h', 'npy_array_list_t', {'array': (self.fa, False), 'filename': (self.fn, False), 'next': ('next', True)}, self.total, writable=False)
        self.params = [Family(c, 'weights', SZ), Family(c, 'biases', SZ)]
        for f in self.params: f.reg.writable = False
        self.names = Names(self); self.L = layout('npy_array.h', 'npy_array_t', AF, cfg)
        nl = layout('neuralnet.h', 'neuralnet_t', NET, cfg)
        self.nn = nn = Region('network', 'cells', IC(nl['sizeof']), align=16, writable=False)
        class Act:
            def decode(s_, ex, st, code): return Ptr(Fn.get('layer_activation'), sub(code, IC(1)))
        sa = self.sa = StructArray(c, 'layers', 'neuralnet.h', 'layer_t', {'n_input': (1, INT_MAX), 'n_output': (1, INT_MAX), 'weight': c_load.FamCode(self.params[0]), 'bias': c_load.FamCode(self.params[1]), 'activation_func': Act()}, N)
        sa.fresh(st); sa.reg.writable = False
        self.size = lambda r: app('size', I, r)
        for nm, fn in (('n_input', self.size), ('n_output', lambda v: self.size(add(v, IC(1)))), ('weight', lambda v: add(v, IC(1))), ('bias', lambda v: add(v, IC(1))), ('activation_func', lambda v: add(v, IC(1)))):
            v = fresh('r', I); st.mem[sa.f[nm]] = Arr(v, fn(v)); sa.f[nm].writable = False
        st.mem[nn] = {nl['n_layers']: (4, N), nl['layer']: (8, Ptr(sa.reg, 0)), nl['loss']: (8, NULL)}
        self.fname = cstr.symregion(ex, st, 'filename')
        g = st.ghost; g[('k',)] = g[('len',)] = g[('rows',)] = g[('evl',)] = g[('evr',)] = g[('saved',)] = IC(0); g['case'] = IC(0)
        self.fmts = {}; self.texts = {}; self.max_used = False; self.vars = []; self.files = []
        ex.contracts = dict(npy_array_list_append=self.append, npy_array_list_save=self.save, get_activation_name=self.getname, strlen=self.strlen, strncpy=self.strncpy)
        self.krel = var('k_released', I); RANGES[self.krel] = (Fraction(0), Fraction(2 ** 40))
        self.rel = steps.StepLoop(['free'], set(), self.rel_havoc, self.rel_entry, self.rel_step, cands=lambda ex, st: [tm.scale(st.ghost[('krel',)], STRIDE), st.ghost[('krel',)]], marks=[self.total])
        def latch(st): st.ghost[('krel',)] = add(self.krel, IC(1))
        self.rel.latch_ghost = latch
        ex.loop_hooks = [self.layer_loop, self.release_loop]; ex.split_tails, ex.split_all = True, 2
    def namelen(self, st, r):
        l = app('namelen', I, r); st.assume(and_(ge(l, IC(1)), le(l, IC(NAMEMAX)))); return l
    def mx(self, st, k):
        """the longest of the first k names"""
        t = app('longest', I, k); st.assume(and_(ge(t, IC(0)), le(t, IC(NAMEMAX)))); return t
    def longest(self, st, r):
        """lemma longest_name: no name of the first N is longer than the longest"""
        t = self.mx(st, self.N); st.assume(le(self.namelen(st, r), t)); return t
    # ---- text of the names
    def width(self, ex, st, d, line):
        """length of a row of the names in the buffer d refers to"""
        r = d.base
        if r.size is None: raise Unsupported('names are written to %s' % r.name)
        q = {}
        for mm, c in pd(r.size).items():
            if self.N not in mm: raise Unsupported('size %s of the text of the names' % pp(r.size)[:80])
            l = list(mm); l.remove(self.N); q[tuple(l)] = c
        return tm.frompd(q, I)
    def row(self, ex, st, d, r, e, k, line):
        g = st.ghost; c = st.mem.get(d.base)
        if d.base.stack is False and heap.live(st, d.base) is not IC(1) and getattr(d.base, 'heap', None): ex.oblige_eq(st, line, 'heap', heap.live(st, d.base), IC(1), 'the text of the names is not released')
        if getattr(d.base, 'pending', False): heap.retag(ex, st, d.base, 1, True); d.base.pending = False; c = st.mem[d.base]
        if not isinstance(c, Arr): raise Unsupported('names are written to %s' % d.base.name)
        st.assume(ge(self.longest(st, r), IC(1)))
        ex.oblige(st, line, 'bounds', le(k, e), 'a name does not extend beyond its row'); ex.oblige(st, line, 'bounds', and_(ge(r, IC(0)), lt(r, self.N)), 'a row of the text')
        ex.oblige_eq(st, line, 'post', d.off, mul(r, e), 'names at their rows')
        ex.oblige_eq(st, line, 'post', r, g[('rows',)], 'one name after the other'); ex.oblige_eq(st, line, 'post', g[('evr',)], IC(0), 'once'); g[('evr',)] = IC(1)
        self.texts.setdefault(d.base, None)
    def strncpy(self, ex, f, it, st, a):
        d, s = one(st, a[0], 'text'), one(st, a[1], 'name')
        if s.base is not self.names.reg: raise Unsupported('strncpy')
        r = self.names.row(s); e = self.width(ex, st, d, it.line); ex.oblige(st, it.line, 'bounds', ge(a[2], self.namelen(st, r)), 'the whole name is copied')
        self.row(ex, st, d, r, e, a[2], it.line)
        if it.res is not None: st.env[it.res] = d
        return st
    # ---- contracts
    def getname(self, ex, f, it, st, a):
        p = one(st, a[0], 'activation function')
        if not (isinstance(p.base, Fn) and p.base.name == 'layer_activation'): ex.oblige(st, it.line, 'call', FALSE, 'name of the function of a layer'); return None
        ex.oblige(st, it.line, 'call', and_(ge(p.off, IC(0)), lt(p.off, self.N)), 'function of a layer'); st.env[it.res] = Ptr(self.names.reg, tm.scale(p.off, SZ)); return st
    def strlen(self, ex, f, it, st, a):
        p = one(st, a[0], 'text')
        if p.base is self.names.reg: st.env[it.res] = self.namelen(st, self.names.row(p)); return st
        st.env[it.res] = intrinsics.BUILTIN['strlen'](ex, it, st, 'strlen', a); return st
    def islist(self, st, p):
        if isnull(st, p): return eq(st.ghost[('len',)], IC(0))
        return gt(st.ghost[('len',)], IC(0)) if p.base is self.list.reg and p.off is IC(0) else FALSE
    def append(self, ex, f, it, st, a):
        ln = it.line; g = st.ghost; p = one(st, a[0], 'the list'); q = one(st, a[1], 'array'); j = g[('len',)]
        ex.oblige(st, ln, 'call', self.islist(st, p), 'the list so far is extended'); b = q.base
        if b is None or not getattr(b, 'heap', None) or q.off is not IC(0): ex.oblige(st, ln, 'call', FALSE, 'an array of its own is added'); return None
        ex.oblige_eq(st, ln, 'heap', heap.live(st, b), IC(1), 'an array of its own is added')
        L = self.L; W = {'ndim': 32, 'endianness': 8, 'typechar': 8, 'fortran_order': 8}
        def val(nm, o=0): return ex.rawload(st, ('ptr',) if nm == 'data' else ('int', W.get(nm, 64)), Ptr(b, L[nm] + o), ln)
        dp = one(st, val('data'), 'data'); nd = val('ndim')
        ex.oblige(st, ln, 'post', and_(ne(val('endianness'), IC(ord('>'))), eq(val('fortran_order'), IC(0))), 'order of the saved array')
        last = not any(dp.base is f_.reg for f_ in self.params)
        kind = 2 if last else 0 if dp.base is self.params[0].reg else 1
        if last:
            if dp.base is None or dp.off is not IC(0) or not isinstance(st.mem.get(dp.base), Arr): ex.oblige(st, ln, 'post', FALSE, 'data of the network is saved'); return None
            ex.oblige_eq(st, ln, 'post', j, mul(IC(2), self.N), 'the names are added last'); e = self.width(ex, st, dp, ln)
            ex.oblige(st, ln, 'post', TRUE if dp.base in self.texts else FALSE, 'the text of the names is saved')
            self.saved_text = dp.base
            ex.oblige_eq(st, ln, 'post', g[('rows',)], self.N, 'all names are in the text'); st.assume(ge(self.longest(st, IC(0)), IC(1)))
            ex.oblige(st, ln, 'post', and_(eq(val('typechar'), IC(ord('S'))), eq(nd, IC(1)), eq(val('shape'), self.N), eq(val('elem_size'), e), ge(e, IC(1))), 'array of the names'); arg = None
        else:
            r = tm.scale(dp.off, Fraction(1, SZ)) if not any(c % SZ for c in pd(dp.off).values()) else None
            if r is None: ex.oblige(st, ln, 'post', FALSE, 'parameters are saved from their beginning'); return None
            ex.oblige_eq(st, ln, 'post', j, add(mul(IC(2), r), IC(kind)), 'weights and biases of one layer after the other')
            ex.oblige(st, ln, 'bounds', and_(ge(r, IC(0)), lt(r, self.N)), 'a layer of the network')
            ex.oblige(st, ln, 'post', and_(eq(val('typechar'), IC(ord('f'))), eq(val('elem_size'), IC(4)), eq(nd, IC(2 - kind))), 'type of the saved parameters')
            st2 = st.fork(); loops.instantiate(st2, r)
            if kind == 0: ex.oblige_eq(st2, ln, 'post', val('shape'), self.size(r), 'input size'); ex.oblige_eq(st2, ln, 'post', val('shape', 8), self.size(add(r, IC(1))), 'output size')
            else: ex.oblige_eq(st2, ln, 'post', val('shape'), self.size(add(r, IC(1))), 'output size')
            arg = r
        fmt = cstr.conc(one(st, a[2], 'format')); mt = fmt is not None and re.fullmatch(rb'([A-Za-z_][A-Za-z_ .-]*)(%\d*[diu])?([A-Za-z_.-]*)', fmt)
        if not mt: raise Unsupported('name %r of a saved array' % (fmt,))
        ok = (arg is None) == (mt.group(2) is None) and self.fmts.setdefault(kind, mt.groups()) == mt.groups() and all(k == kind or not clash(v, mt.groups()) for k, v in self.fmts.items())
        ex.oblige(st, ln, 'post', TRUE if ok else FALSE, 'every array has a name of its own'); ex.oblige(st, ln, 'post', TRUE if len(fmt) <= 60 else FALSE, 'the name is short')
        if arg is not None and ok: ex.oblige_eq(st, ln, 'post', sub(sub(a[3], arg), subst(sub(a[3], arg), {v: IC(0) for v in fv(arg)})), IC(0), 'every array has a name of its own')
        st.ghost[('f', b)] = IC(1)          # from now on the list owns it
        g[('evl',)] = add(g[('evl',)], IC(1)); g[('len',)] = add(j, IC(1)); st.env[it.res] = self.list.head(); return st
    def save(self, ex, f, it, st, a):
        ln = it.line; p = one(st, a[0], 'file name'); q = one(st, a[1], 'list'); g = st.ghost
        F = varargs.textlen(st, 'filename'); t = g.get(('text', p.base, 'filename'))
        if t is None or p.off is not IC(0): ex.oblige(st, ln, 'call', FALSE, 'the file has the given name')
        else: ex.oblige(st, ln, 'call', and_(ge(F, IC(0)), eq(t, F)), 'the file has the given name'); self.files.append((st.fork(), p.base))
        ex.oblige(st, ln, 'call', TRUE if q.base is self.list.reg and q.off is IC(0) else FALSE, 'the list is saved'); ex.oblige_eq(st, ln, 'call', g[('len',)], self.total, 'all arrays are saved')
        ex.oblige_eq(st, ln, 'call', g[('saved',)], IC(0), 'once'); g[('saved',)] = IC(1)
        b = getattr(self, 'saved_text', None)
        if b is not None and getattr(b, 'heap', None): ex.oblige_eq(st, ln, 'heap', heap.live(st, b), IC(1), 'the text of the names is not released')
        for x in SORTS: ex.oblige(st, ln, 'heap', TRUE if ('freed', x) not in g else FALSE, 'the list is not released')
        if it.res is not None: st.env[it.res] = bytestr.inrange(st, fresh('ioret', I), 0, 2 ** 31 - 1)
        return st
    # ---- loops
    def layer_loop(self, ex, f, L, phis, init, s0, rets):
        if not steps.loop_calls(ex, f, L.blocks, {'npy_array_list_append', 'get_activation_name'}): return None
        g = s0.fork(); ex.silent += 1; nt = dict(self.texts)
        try: latches, _, _ = ex.region(f, L, [(None, g)])
        finally: ex.silent -= 1
        lists = any(ls.ghost[('evl',)] is not s0.ghost[('evl',)] for _, ls in latches); rows = any(ls.ghost[('evr',)] is not s0.ghost[('evr',)] for _, ls in latches)
        new = [b for b in self.texts if b in s0.mem] if rows else []
        K = self.c.int('layer%d' % len(self.vars), 0, 2 ** 31 - 1); self.vars.append(K); N = self.N
        for b in new: s0.mem[b] = Arr(s0.mem[b].v, s0.mem[b].body)
        def facts(st, k):
            a0, a1, l = self.mx(st, k), self.mx(st, add(k, IC(1))), self.namelen(st, k)
            st.assume(eq(a1, ite(gt(l, a0), l, a0))); st.assume(eq(self.mx(st, IC(0)), IC(0)))
        def havoc(ex, st):
            st.ghost[('k',)] = K; st.assume(and_(ge(K, IC(0)), le(K, N))); case = int(st.ghost['case'].args[0])
            if lists: st.ghost[('len',)] = mul(IC(2), K) if case else IC(0)
            if rows: st.ghost[('rows',)] = K
            st.ghost[('evl',)] = st.ghost[('evr',)] = IC(0); facts(st, K); st.assume(gt(K, IC(0)) if case else eq(K, IC(0)))
        def entry(ex, st, line):
            if lists: ex.oblige_eq(st, line, 'loop', st.ghost[('len',)], IC(0), 'nothing is in the list before')
            if rows:
                ex.oblige_eq(st, line, 'loop', st.ghost[('rows',)], IC(0), 'no name is copied before')
                for b in new:
                    r = fresh('r', I); RANGES[r] = (Fraction(0), Fraction(2 ** 63)); s = st.fork(); s.assume(and_(ge(r, IC(0)), lt(r, b.size))); ex.oblige_eq(s, line, 'post', s.mem[b].at(r), IC(0), 'names are padded with zeros')
        def step(ex, st, line):
            if lists: ex.oblige_eq(st, line, 'loop', st.ghost[('len',)], add(mul(IC(2), K), IC(2)), 'weights and biases of each layer are added')
            if rows: ex.oblige_eq(st, line, 'loop', st.ghost[('rows',)], add(K, IC(1)), 'the name of each layer is copied')
            ex.oblige(st, line, 'loop', lt(K, N), 'a layer')
            for r in getattr(ex, 'heap', []):
                if r in st.mem and r not in s0.mem: ex.oblige_eq(st, line, 'heap', heap.live(st, r), IC(0), 'memory of each iteration is added to the list')
        def latch(st):
            st.ghost[('k',)] = add(K, IC(1)); st.ghost[('rows',)] = add(st.ghost[('rows',)], st.ghost[('evr',)]); st.ghost[('evr',)] = st.ghost[('evl',)] = IC(0)
        def cands(ex, st):
            k = st.ghost[('k',)]; out = [k, self.mx(st, k)]
            for b in st.mem:
                if isinstance(st.mem[b], Arr) and b.size is not None and (b.es == 1 or getattr(b, 'pending', False)) and (b.stack or getattr(b, 'heap', None)) and all(self.N in mm for mm in pd(b.size)) and pd(b.size): out.append(mul(k, self.width(ex, st, Ptr(b, 0), 0)))
            return out + [mul(IC(2), k), tm.scale(k, self.sa.S), tm.scale(k, 8), tm.scale(k, 4)]
        h = steps.StepLoop(set(), set(new), havoc, entry, step, cands); h.latch_ghost = latch; h.cases = [0, 1]
        h.pcands = lambda ex, st: [NULL if st.ghost['case'] is IC(0) else self.list.head()] if lists else []
        def split(ex, st):
            s = st.fork(); s.ghost['case'] = IC(1); s.assume(ge(K, IC(0))); return [s]
        h.split = split
        s0 = s0.fork(); s0.ghost[('k',)] = IC(0); s0.ghost['case'] = IC(0)
        self.mx(s0, IC(0)); facts(s0, IC(0))
        return steps.step_loop(h, ex, f, L, phis, init, s0, rets)
    def rel_havoc(self, ex, st):
        st.ghost[('krel',)] = self.krel
        st.assume(and_(ge(self.krel, IC(0)), le(self.krel, self.total)))
        for x in SORTS: st.ghost[('prefix', x)] = self.krel; st.ghost[('freed', x)] = IC(0)
    def rel_entry(self, ex, st, line): ex.oblige_eq(st, line, 'heap', st.ghost[('saved',)], IC(1), 'the list is saved before its release')
    def rel_step(self, ex, st, line):
        for x in SORTS: ex.oblige(st, line, 'loop', eq(st.ghost[('freed', x)], IC(1)), 'each element of %s is released' % x)
    def release_loop(self, ex, f, L, phis, init, s0, rets):
        if not any(isinstance(v, (Ptr, PIte)) and any(q.base is self.list.reg for _, q in heap.feasible(s0, v)) for v in init.values()): return None
        s0 = s0.fork()
        s0.ghost[('krel',)] = IC(0)
        for x in SORTS: s0.ghost[('prefix', x)] = s0.ghost[('freed', x)] = IC(0)
        return steps.step_loop(self.rel, ex, f, L, phis, init, s0, rets)

def clash(a, b):
    """may texts of two formats (prefix, number, suffix) be equal"""
    if a[1] is None and b[1] is None: return a == b
    if a[1] is None: a, b = b, a
    if b[1] is not None: return not (a[0] != b[0])       # prefixes do not end in digits: the number starts where they differ
    return re.fullmatch(re.escape(a[0]) + rb'[ 0-9-]+' + re.escape(a[2] or b''), b[0] + (b[2] or b'')) is not None

@contract('neuralnet_save', {'C11': None, 'C03': SAFETY}, ['nosimd'], functions=['neuralnet_save'])
def save(cfg):
    out = []
    for case in ('no network', 'no name', 'all'):
        m = Save(cfg); c = m.c; ex = c.ex
        c.call('neuralnet_save', NULL if case == 'no network' else m.nn, NULL if case == 'no name' else m.fname)
        n = 0
        for st, rv in ex.rets:
            for r in getattr(ex, 'heap', []):
                if r in st.mem: c.post_eq(heap.live(st, r), IC(0), 'temporary memory is released', st)
            if case != 'all': c.post_eq(st.ghost[('saved',)], IC(0), 'nothing is written', st); c.satisfiable(st); continue
            F = varargs.textlen(st, 'filename')
            for key in st.ghost:
                if isinstance(key, tuple) and key[0] == 'va': c.post_eq(st.ghost[key], IC(0), 'argument lists are ended', st)
            if prove(st.facts(), eq(st.ghost[('saved',)], IC(0))):
                c.post(or_(lt(F, IC(0)), gt(F, IC(128))), 'not saved only when the name is longer than 128 characters', st)
            else:
                n += 1; c.post_eq(st.ghost[('saved',)], IC(1), 'the network is saved', st)
                for x in SORTS: c.post_eq(st.ghost.get(('prefix', x), IC(0)), m.total, 'the list is released (%s)' % x, st)
            c.satisfiable(st)
        if case == 'all': c.post(TRUE if n else FALSE, 'networks are saved', ex.rets[0][0])
        out.append(c)
    return out

@contract('longest_name@lemma', {'C11': None}, ['nosimd'], functions=[])
def longest_name(cfg):
    """induction: no name of the first k is longer than the longest of them, which has a length between 0 and the greatest length"""
    m = Save(cfg); c = m.c; k = c.int('k', 0, 2 ** 31 - 1); r = c.int('r', 0, 2 ** 31 - 1)
    M = lambda k: app('longest', I, k)
    s = c.st; l = lambda r: m.namelen(s, r)
    c.post(and_(ge(IC(0), IC(0)), le(IC(0), IC(NAMEMAX))), 'base: no names')
    s.assume(and_(ge(M(k), IC(0)), le(M(k), IC(NAMEMAX)))); s.assume(or_(ge(r, k), le(l(r), M(k)))); s.assume(le(r, k))
    nx = ite(gt(l(k), M(k)), l(k), M(k))
    s.assume(or_(lt(r, k), eq(l(r), l(k))))          # r = k
    c.post(le(l(r), nx), 'step: not longer', s); c.post(and_(ge(nx, IC(0)), le(nx, IC(NAMEMAX))), 'step: range', s)
    c.satisfiable(s); return c

@contract('save_load@lemma', {'C11': None}, ['nosimd'], functions=[])
def save_load(cfg):
    """The list neuralnet_save writes (postconditions of neuralnet_save) is a consistent file in the sense of neuralnet_load, for
    which neuralnet_load returns the same network.  Arrays are read back as they were saved (C09, C10); the function of a
    name is the function that has the name (C08)."""
    m = Save(cfg); c = m.c; N, size = m.N, m.size; S, n, h = mul(IC(2), N), m.total, N
    def A(nm, k, sort=I):
        d = pd(k); k0 = int(d.get((), 0))
        if k is S: v = dict(type=IC(ord('S')), elem=app('longest', I, N), ndim=IC(1), sh0=N, sh1=IC(0))
        elif all(x % 2 == 0 for mm, x in d.items() if mm):
            r = tm.scale(sub(k, IC(k0 % 2)), Fraction(1, 2)); o = size(add(r, IC(1)))
            v = dict(type=IC(ord('f')), elem=IC(4), ndim=IC(2), sh0=size(r), sh1=o) if k0 % 2 == 0 else dict(type=IC(ord('f')), elem=IC(4), ndim=IC(1), sh0=o, sh1=IC(0))
        else: raise Unsupported('array %s of the saved list' % pp(k))
        if nm == 'fortran': return FALSE
        if nm == 'end': return app('byteorder', I, k)
        return v[nm]
    pos = lambda j: ite(lt(j, S), j, add(j, IC(1)))
    st = c.st; r = c.int('r', 0, 2 ** 31 - 1); st.assume(lt(r, N))
    for x in (r, add(r, IC(1))): st.assume(and_(ge(size(x), IC(1)), le(size(x), IC(INT_MAX))))       # layer sizes of a network (C17)
    st.assume(app('resolved', B, r))                                    # C08: the name of an activation is known
    class P:
        """pos(j) where it is j: the names are the last array"""
        def __call__(s_, j): return j
    for j in (mul(IC(2), r), add(mul(IC(2), r), IC(1))):
        st.assume(ne(app('byteorder', I, j), IC(ord('>')))); c.post_eq(pos(j), j, 'the names are the last array', st)
    j2 = mul(IC(2), add(r, IC(1))); s2 = st.fork(); s2.assume(lt(add(r, IC(1)), N)); c.post_eq(pos(j2), j2, 'the names are the last array', s2)
    for x in whole(A, S, n, h): c.post(x, 'a saved file is consistent: names')
    for j in (mul(IC(2), r), add(mul(IC(2), r), IC(1))):
        for x in other(A, S, n, j) + param(A, S, n, P(), j): c.post(x, 'a saved file is consistent: arrays')
    for x in layer(A, h, P(), lambda q: app('resolved', B, q), r): c.post(x, 'a saved file is consistent: layers')
    c.post_eq(A('sh0', mul(IC(2), r)), size(r), 'the input size of each layer is read back'); c.post_eq(A('sh1', mul(IC(2), r)), size(add(r, IC(1))), 'the output size of each layer is read back')
    # the names: row r of the text, terminated by zero, is name r
    i = c.int('i', 0, 2 ** 31 - 1); e = m.longest(st, r); l = m.namelen(st, r); ch = app('namechar', I, r, i)
    st.assume(or_(ge(i, l), ne(ch, IC(0)))); saved = ite(lt(i, l), ch, IC(0)); read = ite(lt(i, e), saved, IC(0))
    s1 = st.fork(); s1.assume(le(i, l)); c.post_eq(read, ite(lt(i, l), ch, IC(0)), 'each name is read back', s1)
    c.post(le(l, e), 'each name fits its row')
    c.satisfiable(); return c
