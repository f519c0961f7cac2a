"""Writing archives (C09): any number of arrays; entry k of the archive is the header of array k followed by its
data, under its name.  libzip is an assumed contract: an entry holds the bytes of the buffer handed to it."""
from harness import *
import terms as tm
import steps, heap, bytestr, ropes, solve
from steps import StepLoop
from layout import layout
from fractions import Fraction
from execu import window
from solve import RANGES
from c_npyread import isnull
SRC = ['npy_array/npy_array_list.c', 'npy_array/npy_array.c']
PMAX = 2 ** 63 - 1
solve.APPRANGE['header'] = solve.APPRANGE['data'] = (Fraction(-128), Fraction(127))

class Nodes:
    """the list: node k has the array k and, if has_name k, the name k.  K is the node being handled"""
    STRIDE = 64
    def __init__(self, c, n, K):
        self.c, self.n, self.K = c, n, K; st = c.st
        self.L = layout('npy_array_list.h', 'npy_array_list_t', ['array', 'filename', 'next'], c.cfg)
        self.reg = Region('list', 'cells', tm.scale(n, self.STRIDE), align=16); r = self.reg
        r.es = self.STRIDE; r.stepped = True; r.handler = self; r.nullat = tm.scale(n, self.STRIDE); r.family = self; st.mem[r] = {}
        self.arr = Region('array', 'cells', IC(4096), align=16, writable=False); self.arr.handler = self; st.mem[self.arr] = {}
        self.A = layout('npy_array.h', 'npy_array_t', ['data'], c.cfg)
        self.nm = Region('name', 'cells', None, align=1, writable=False); st.mem[self.nm] = {}
        self.slot = Region('slot', 'cells', IC(8), align=8); st.mem[self.slot] = {0: (8, NULL)}
        self.D, self.H = app('datasize', I, K), app('headersize', I, K)
        self.data = Region('data', 'arr', self.D, es=1, sort=I, writable=False, align=1); v = fresh('r', I); st.mem[self.data] = Arr(v, app('data', I, v)); st.assume(gt(self.data.addr, IC(0)))
    def fresh(self, st):
        """the state of node K when it is reached"""
        st.mem[self.slot] = {0: (8, PIte([(app('has_name', B, self.K), Ptr(self.nm, 0)), (TRUE, NULL)]))}
    def where(self, ex, st, p, line):
        """byte offset inside node K"""
        o = sub(p.off, tm.scale(self.K, self.STRIDE))
        for nm in ('array', 'filename', 'next'):
            if o is IC(self.L[nm]): return nm
        raise Unsupported('access to another element of the list: %s' % pp(p.off)[:100])
    def load(self, ex, st, ty, p, line):
        if p.base is self.arr:
            if p.off is not IC(self.A['data']): raise Unsupported('access to the array')
            return Ptr(self.data, 0)
        nm = self.where(ex, st, p, line)
        ex.oblige(st, line, 'bounds', and_(ge(self.K, IC(0)), lt(self.K, self.n)), 'element of the list')
        return Ptr(self.reg, tm.scale(add(self.K, IC(1)), self.STRIDE)) if nm == 'next' else Ptr(self.arr, 0) if nm == 'array' else st.mem[self.slot][0][1]
    def store(self, ex, st, ty, v, p, line):
        nm = self.where(ex, st, p, line); ex.oblige(st, line, 'write', TRUE if nm == 'filename' else FALSE, 'only the name of an element is changed')
        ex.oblige(st, line, 'write', not_(app('has_name', B, self.K)), 'a name that was set is not changed')
        st.mem[self.slot] = {0: (8, v)}
    def freed(self, ex, st, p, line, what): ex.oblige(st, line, 'heap', FALSE, 'the list is not released')

def is_(st, p, base, off=None):
    la = heap.feasible(st, p); return TRUE if len(la) == 1 and la[0][1].base is base and (off is None or la[0][1].off is IC(off)) else FALSE

class Zip:
    """libzip, for writing.  ghosts: zip (open), k (nodes handled), added (entries so far), src (a source is
    waiting), done (the entry of this node was offered), in (it was added)"""
    def __init__(self, c, fname, N):
        self.c, self.fname, self.N = c, fname, N; st = c.st
        self.reg = Region('zip', 'cells', None, align=16); st.mem[self.reg] = {}
        self.src = Region('source', 'cells', None, align=16); st.mem[self.src] = {}
        self.okopen, self.okclose = var('can_open', B), var('can_write', B)
        for g in 'zip zips k added src sources done in head disc'.split(): st.ghost[(g,)] = IC(0)
        c.ex.contracts.update(zip_open=self.open, zip_close=self.close, zip_discard=self.discard, zip_set_file_compression=self.comp, zip_source_buffer_create=self.source, zip_source_free=self.sfree,
                              zip_file_add=self.fileadd, zip_strerror=self.strerror, npy_array_get_header=self.header, npy_array_calculate_datasize=self.size)
    def iszip(self, ex, st, p, line): ex.oblige(st, line, 'call', is_(st, p, self.reg, 0), 'the archive'); ex.oblige_eq(st, line, 'call', st.ghost[('zip',)], IC(1), 'the archive is open')
    def open(self, ex, f, it, st, a):
        ex.oblige(st, it.line, 'call', is_(st, a[0], self.fname, 0), 'the named archive is opened')
        fl = int(a[1].args[0]) if a[1].op == 'const' else -1
        ex.oblige(st, it.line, 'call', TRUE if fl & 9 == 9 and fl & ~13 == 0 else FALSE, 'a new archive is made in place of the old one')
        ex.oblige_eq(st, it.line, 'call', st.ghost[('zips',)], IC(0), 'once'); st.ghost[('zips',)] = IC(1)
        st.ghost[('zip',)] = ite(self.okopen, IC(1), IC(0)); st.env[it.res] = PIte([(self.okopen, Ptr(self.reg, 0)), (TRUE, NULL)]); return st
    def close(self, ex, f, it, st, a):
        self.iszip(ex, st, a[0], it.line); ex.oblige_eq(st, it.line, 'call', st.ghost[('k',)], self.N.n, 'all arrays were handled before the archive is written')
        st.ghost[('zip',)] = ite(self.okclose, IC(0), IC(1))
        r = fresh('failed', I); st.assume(lt(r, IC(0))); RANGES[r] = (Fraction(-2 ** 31), Fraction(-1))
        if it.res is not None: st.env[it.res] = ite(self.okclose, IC(0), r)
        return st
    def discard(self, ex, f, it, st, a): self.iszip(ex, st, a[0], it.line); st.ghost[('zip',)] = IC(0); st.ghost[('disc',)] = IC(1); return st
    def comp(self, ex, f, it, st, a):
        self.iszip(ex, st, a[0], it.line)
        if it.res is not None: st.env[it.res] = bytestr.inrange(st, fresh('ioret', I), -1, 0)
        return st
    def strerror(self, ex, f, it, st, a): self.iszip(ex, st, a[0], it.line); st.env[it.res] = Ptr(cstr.symregion(ex, st, 'message'), 0); return st
    def header(self, ex, f, it, st, a):
        """contract proved as npy_header/*: fills a text of headersize(k) <= 1024 bytes"""
        ex.oblige(st, it.line, 'call', is_(st, a[0], self.N.arr, 0), 'header of the array of this element')
        p = bytestr.one(st, a[1], 'header'); ex.bounds(st, p, IC(1024), it.line, 'header into'); H = self.N.H
        if getattr(p.base, 'pending', False): p.base.es, p.base.sort, p.base.pending = 1, I, False
        if not bytestr.isbuf(st, p): heap.retag(ex, st, p.base, 1, True)
        bytestr.fit(ex, st, p.base)
        m = st.mem[p.base]; st.mem[p.base] = Arr(m.v, ite(window(m.v, p.off, add(p.off, H)), app('header', I, sub(m.v, p.off)), m.body))
        st.env[it.res] = H; return st
    def size(self, ex, f, it, st, a):
        """contract proved as npy_datasize/*"""
        ex.oblige(st, it.line, 'call', is_(st, a[0], self.N.arr, 0), 'size of the array of this element'); st.env[it.res] = self.N.D; return st
    def source(self, ex, f, it, st, a):
        p = bytestr.one(st, a[0], 'entry'); n = a[1]; N = self.N
        ex.oblige_eq(st, it.line, 'call', n, add(N.H, N.D), 'the entry has the header and all data'); ex.bounds(st, p, n, it.line, 'entry from')
        ok = p.base is not None and getattr(p.base, 'heap', None) and p.off is IC(0)
        ex.oblige(st, it.line, 'call', TRUE if ok else FALSE, 'the buffer is a block of its own'); ex.oblige(st, it.line, 'call', ne(a[2], IC(0)), 'the archive owns the buffer')
        ex.oblige_eq(st, it.line, 'call', st.ghost[('src',)], IC(0), 'one source at a time')
        if ok:
            r = p.base; ex.oblige_eq(st, it.line, 'heap', heap.live(st, r), IC(1), 'the buffer was not released'); bytestr.fit(ex, st, r)
            i = fresh('i', I); RANGES[i] = (Fraction(0), Fraction(PMAX))
            for nm, lo, hi, want in (('header', IC(0), N.H, app('header', I, i)), ('data', N.H, add(N.H, N.D), app('data', I, sub(i, N.H)))):
                s = st.fork(); s.assume(and_(ge(i, lo), lt(i, hi)))
                if not solve.infeasible(s.facts()): ex.oblige_eq(s, it.line, 'call', solve.simp(bytestr.at(s, r, i), s.facts()), want, 'the %s of the array' % nm)
            st.ghost[('f', r)] = IC(1)          # released by the archive
        st.ghost[('src',)] = IC(1); st.env[it.res] = Ptr(self.src, 0); return st
    def sfree(self, ex, f, it, st, a):
        ex.oblige(st, it.line, 'call', is_(st, a[0], self.src, 0), 'source'); ex.oblige_eq(st, it.line, 'call', st.ghost[('src',)], IC(1), 'a source that the archive took is not released'); st.ghost[('src',)] = IC(0); return st
    def fileadd(self, ex, f, it, st, a):
        g = st.ghost; N = self.N; k = g[('k',)]
        self.iszip(ex, st, a[0], it.line); ex.oblige(st, it.line, 'call', is_(st, a[2], self.src, 0), 'the source of this array'); ex.oblige_eq(st, it.line, 'call', g[('src',)], IC(1), 'a source is added once')
        ex.oblige_eq(st, it.line, 'call', g[('done',)], IC(0), 'an array is added once')
        ex.oblige(st, it.line, 'call', TRUE if a[3].op == 'const' and not int(a[3].args[0]) & 8192 else FALSE, 'no entry is overwritten')
        for cnd, q in heap.feasible(st, a[1]):
            s = st.fork(); s.assume(cnd)
            if q.base is N.nm: ex.oblige(s, it.line, 'call', TRUE if q.off is IC(0) else FALSE, 'the name of the element'); continue
            ex.oblige(s, it.line, 'call', not_(app('has_name', B, N.K)), 'the name of the element is used'); ok = q.base is not None and bytestr.isbuf(s, q)
            ex.oblige(s, it.line, 'call', TRUE if ok else FALSE, 'a name')
            if not ok: continue
            ps = list(ropes.pieces(ex, s, q))
            num = [y for _, kind, y in ps if kind == 'dec']
            ex.oblige(s, it.line, 'call', or_(*[or_(eq(y, g[('added',)]), eq(y, k)) for y in num]), 'a name that no other array was given')
            x = s.mem[N.slot][0][1]; ex.oblige(s, it.line, 'call', is_(s, x, q.base, 0), 'the list holds the name')
        ok = app('can_add', B, k); g[('src',)] = ite(ok, IC(0), IC(1)); g[('done',)] = IC(1); g[('in',)] = ite(ok, IC(1), IC(0))
        st.env[it.res] = ite(ok, g[('added',)], IC(-1)); g[('added',)] = add(g[('added',)], ite(ok, IC(1), IC(0))); return st

def save(cfg, entry_fn):
    c = Ctx(cfg, SRC); ex = c.ex; ex.contracts = dict(ropes.CONTRACTS); ex.heap_may_fail = False
    fname = cstr.symregion(ex, c.st, 'filename')
    n = c.int('n', 1, 2 ** 31 - 1); K = c.int('k', 0, 2 ** 31 - 1); ADDED = c.int('added', 0, 2 ** 31 - 1)
    N = Nodes(c, n, K); z = Zip(c, fname, N)
    c.assume(and_(ge(N.D, IC(0)), le(N.D, IC(PMAX - 1024)))); c.assume(and_(ge(N.H, IC(10)), le(N.H, IC(1024))))
    def havoc(ex, st):
        g = st.ghost; g[('k',)] = K; g[('added',)] = ADDED; g[('done',)] = g[('src',)] = g[('in',)] = IC(0)
        st.assume(le(K, n)); st.assume(le(ADDED, K)); N.fresh(st)
    def begin(ex, st, line):
        ex.oblige_eq(st, line, 'loop', st.ghost[('zip',)], IC(1), 'the archive is open'); ex.oblige_eq(st, line, 'loop', st.ghost[('k',)], IC(0), 'from the first element')
    def step(ex, st, line):
        g = st.ghost
        ex.oblige(st, line, 'loop', le(g[('k',)], n), 'an element of the list was handled'); ex.oblige_eq(st, line, 'loop', g[('done',)], IC(1), 'the array was added')
        ex.oblige_eq(st, line, 'loop', g[('src',)], IC(0), 'no source is left'); ex.oblige(st, line, 'loop', le(g[('added',)], g[('k',)]), 'entries'); ex.oblige_eq(st, line, 'loop', g[('zip',)], IC(1), 'the archive stays open')
        held = [(cd, q.base) for cd, q in heap.feasible(st, st.mem[N.slot][0][1])]
        for r in getattr(ex, 'heap', []):
            if st.ghost.get(('a', r)) is None: continue
            ex.oblige_eq(st, line, 'heap', heap.live(st, r), ite(or_(*[cd for cd, b in held if b is r]), IC(1), IC(0)), 'a block is owned by the list or released')
    h = StepLoop({'zip_file_add'}, {N.slot}, havoc, begin, step, lambda ex, st: [st.ghost[('added',)], st.ghost[('k',)]])
    h.pcands = lambda ex, st: [Ptr(N.reg, tm.scale(st.ghost[('k',)], N.STRIDE))]
    def latch(st): st.ghost[('k',)] = add(st.ghost[('k',)], IC(1))
    h.latch_ghost = latch; ex.loop_hooks = [h]; ex.split_tails = True
    args = [fname, Ptr(N.reg, 0)]
    if entry_fn.endswith('compressed'): args += [c.int('comp', -2 ** 31, 2 ** 31 - 1), c.int('flags', 0, 2 ** 32 - 1)]
    c.call(entry_fn, *args)
    if not h.hits: raise Unsupported('loop over the list not found')
    seen = set()
    for st, rv in ex.rets:
        g = st.ghost; c.post_eq(g[('zip',)], IC(0), 'the archive is closed', st); c.satisfiable(st)
        for nm, ok, want in (('written', and_(z.okopen, z.okclose), None), ('not written', not_(and_(z.okopen, z.okclose)), IC(0))):
            s = st.fork(); s.assume(ok)
            if solve.infeasible(s.facts()): continue
            seen.add(nm); c.post_eq(rv, want if want is not None else g[('added',)], 'number of entries when the archive is %s' % nm, s)
            if want is None: c.post_eq(g[('k',)], n, 'all arrays were handled', s)
    c.post(TRUE if len(seen) == 2 else FALSE, 'archives are written and refused', ex.rets[0][0])
    c2 = Ctx(cfg, SRC); c2.ex.contracts = dict(ropes.CONTRACTS); f2 = cstr.symregion(c2.ex, c2.st, 'filename')
    K2 = c2.int('k', 0, 1); z2 = Zip(c2, f2, Nodes(c2, IC(0), K2)); args = [f2, NULL] + ([IC(0), IC(0)] if len(args) > 2 else [])
    rv = c2.call(entry_fn, *args); c2.post_eq(rv, IC(0), 'an empty list has no entries'); c2.post_eq(c2.st.ghost[('zip',)], IC(0), 'nothing stays open'); c2.satisfiable()
    return [c, c2]
for fn in ('npy_array_list_save', 'npy_array_list_save_compressed'):
    contract(fn, {'C09': None, 'C11': None} if fn.endswith('save') else {'C09': None}, ['nosimd'], functions=['npy_array_list_save_compressed', '_new_internal_filename'] + (['npy_array_list_save'] if fn.endswith('save') else []))(lambda cfg, fn=fn: save(cfg, fn))
