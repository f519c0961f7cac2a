"""Loading an archive (C10, C09): any number of entries, each of which may fail to open or to hold an array."""
from harness import *
import steps, heap, bytestr, solve
from c_npyread import isnull, File, reader, isfn
from steps import StepLoop
SRC = ['npy_array/npy_array_list.c', 'npy_array/npy_array.c']

class Archive:
    """libzip, for reading: entry k can be opened (open_ok k), holds an array (array_ok k) and has the name k"""
    def __init__(self, c, fname):
        self.c, self.fname = c, fname; self.reg = Region('zip', 'cells', None, align=16); c.st.mem[self.reg] = {}
        self.ent = Region('entry', 'cells', None, align=16); c.st.mem[self.ent] = {}
        self.list = Region('list', 'cells', None, align=16); c.st.mem[self.list] = {}
        self.arr = Region('array', 'cells', None, align=16); c.st.mem[self.arr] = {}
        self.nm = Region('name', 'cells', None, align=1); c.st.mem[self.nm] = {}
        self.ok = var('can_open', B); self.n = c.int('entries', 0, 2 ** 31 - 1)
        c.st.ghost.update({('zip',): IC(0), ('zips',): IC(0), ('ent',): IC(0), ('cur',): IC(-1), ('len',): IC(0), ('app',): IC(0), ('k',): IC(0), ('tried',): IC(0), ('case',): IC(0), 'case': IC(0), ('closed',): IC(0)})
        self.fns = []
        c.ex.contracts.update(zip_open=self.open, zip_close=self.close, zip_discard=self.discard, zip_get_num_entries=self.count, zip_fopen_index=self.fopen, zip_fclose=self.fclose,
                              zip_get_name=self.name, _read_matrix=self.read, npy_array_list_append=self.append)
    def openok(self, k): return app('open_ok', B, k)
    def arrok(self, k): return app('array_ok', B, k)
    def iszip(self, ex, st, p, line):
        la = heap.feasible(st, p); ex.oblige(st, line, 'call', TRUE if len(la) == 1 and la[0][1].base is self.reg else FALSE, 'the archive'); ex.oblige_eq(st, line, 'call', st.ghost[('zip',)], IC(1), 'the archive is open')
    def isent(self, ex, st, p, line):
        la = heap.feasible(st, p); ex.oblige(st, line, 'call', TRUE if len(la) == 1 and la[0][1].base is self.ent else FALSE, 'the entry'); ex.oblige_eq(st, line, 'call', st.ghost[('ent',)], IC(1), 'the entry is open')
    def open(self, ex, f, it, st, a):
        la = heap.feasible(st, a[0]); ex.oblige(st, it.line, 'call', TRUE if len(la) == 1 and la[0][1].base is self.fname else FALSE, 'the named archive is opened')
        ex.oblige(st, it.line, 'call', TRUE if a[1].op == 'const' and int(a[1].args[0]) & ~(16 | 4) == 0 else FALSE, 'for reading')
        ex.oblige_eq(st, it.line, 'call', st.ghost[('zips',)], IC(0), 'once'); st.ghost[('zips',)] = IC(1)
        st.ghost[('zip',)] = ite(self.ok, IC(1), IC(0)); st.env[it.res] = PIte([(self.ok, Ptr(self.reg, 0)), (TRUE, NULL)]); return st
    def close(self, ex, f, it, st, a):
        self.iszip(ex, st, a[0], it.line); st.ghost[('zip',)] = IC(0)
        if it.res is not None: st.env[it.res] = bytestr.inrange(st, fresh('ioret', I), -1, 0)
        return st
    def discard(self, ex, f, it, st, a): self.iszip(ex, st, a[0], it.line); st.ghost[('zip',)] = IC(0); return st
    def count(self, ex, f, it, st, a): self.iszip(ex, st, a[0], it.line); st.env[it.res] = self.n; return st
    def fopen(self, ex, f, it, st, a):
        self.iszip(ex, st, a[0], it.line); k = a[1]
        ex.oblige_eq(st, it.line, 'call', k, st.ghost[('k',)], 'the next entry is opened'); ex.oblige(st, it.line, 'call', lt(k, self.n), 'an entry is opened')
        ex.oblige_eq(st, it.line, 'call', st.ghost[('tried',)], IC(0), 'every entry is opened once'); ex.oblige_eq(st, it.line, 'call', st.ghost[('ent',)], IC(0), 'one entry at a time')
        ok = self.openok(k); st.ghost[('tried',)] = IC(1); st.ghost[('ent',)] = ite(ok, IC(1), IC(0))
        st.env[it.res] = PIte([(ok, Ptr(self.ent, 0)), (TRUE, NULL)]); return st
    def fclose(self, ex, f, it, st, a):
        self.isent(ex, st, a[0], it.line); st.ghost[('ent',)] = IC(0)
        if it.res is not None: st.env[it.res] = fresh('ioret', I)
        return st
    def read(self, ex, f, it, st, a):
        self.isent(ex, st, a[0], it.line); g = isfn(self.c, st, a[1]); ex.oblige(st, it.line, 'call', TRUE if g is not None else FALSE, 'reading function')
        if g is not None and g not in self.fns: self.fns.append(g)
        k = st.ghost[('k',)]; st.ghost[('cur',)] = ite(self.arrok(k), k, IC(-1))
        st.env[it.res] = PIte([(self.arrok(k), Ptr(self.arr, 0)), (TRUE, NULL)]); return st
    def name(self, ex, f, it, st, a):
        self.iszip(ex, st, a[0], it.line); ex.oblige(st, it.line, 'call', and_(ge(a[1], IC(0)), lt(a[1], self.n)), 'name of an entry')
        ex.oblige(st, it.line, 'call', self.openok(a[1]), 'name of an entry that can be opened')
        st.env[it.res] = Ptr(self.nm, a[1]); return st
    def append(self, ex, f, it, st, a):
        k = st.ghost[('k',)]
        p = bytestr.one(st, a[0], 'the list'); ex.oblige(st, it.line, 'call', self.islist(st, p), 'the list so far is extended')
        q = bytestr.one(st, a[1], 'array'); ex.oblige(st, it.line, 'call', TRUE if q.base is self.arr and q.off is IC(0) else FALSE, 'the array of the entry is added')
        ex.oblige_eq(st, it.line, 'call', st.ghost[('cur',)], k, 'the array of this entry is added')
        va = a[3] if len(a) > 3 else None
        ex.oblige(st, it.line, 'call', TRUE if cstr.conc(bytestr.one(st, a[2], 'format')) == b'%s' and isinstance(va, Ptr) and va.base is self.nm and prove_eq(va.off, k, st.facts()) else FALSE, 'under the name of the entry')
        ex.oblige_eq(st, it.line, 'call', st.ghost[('app',)], IC(0), 'once')
        mem = app('memory', B, k)         # without memory the list is returned as it is (C20)
        st.ghost[('app',)] = IC(1); st.ghost[('len',)] = ite(mem, add(st.ghost[('len',)], IC(1)), st.ghost[('len',)])
        st.env[it.res] = PIte([(mem, Ptr(self.list, 0)), (TRUE, p)]); return st
    def islist(self, st, p):
        if isnull(st, p): return eq(st.ghost[('len',)], IC(0))
        return gt(st.ghost[('len',)], IC(0)) if p.base is self.list and p.off is IC(0) else FALSE

@contract('npy_array_list_load', {'C10': None, 'C09': None, 'C11': None}, ['nosimd'], functions=['npy_array_list_load'])
def load(cfg):
    c = Ctx(cfg, SRC); ex = c.ex; ex.contracts = {}
    fname = cstr.symregion(ex, c.st, 'filename'); z = Archive(c, fname)
    K, N = c.int('k', 0, 2 ** 31 - 1), c.int('len', 0, 2 ** 31 - 1)
    def havoc(ex, st):
        g = st.ghost; case = int(g['case'].args[0]); g[('k',)] = K; g[('len',)] = N if case else IC(0); g[('ent',)] = g[('tried',)] = g[('app',)] = IC(0); g[('cur',)] = IC(-1)
        st.assume(le(K, z.n)); st.assume(le(N, K)); st.assume(gt(N, IC(0)) if case else eq(N, IC(0)))
    def entry(ex, st, line): ex.oblige_eq(st, line, 'loop', st.ghost[('zip',)], IC(1), 'the archive is open')
    def step(ex, st, line):
        # ghost k has moved on (latch_ghost): the entry handled is k - 1
        k = sub(st.ghost[('k',)], IC(1)); g = st.ghost
        ex.oblige(st, line, 'loop', lt(k, z.n), 'an entry was handled')
        ex.oblige_eq(st, line, 'loop', g[('tried',)], IC(1), 'the entry was opened'); ex.oblige_eq(st, line, 'loop', g[('ent',)], IC(0), 'and closed')
        ex.oblige_eq(st, line, 'loop', g[('app',)], ite(and_(z.openok(k), z.arrok(k)), IC(1), IC(0)), 'its array is in the list when it has one')
        ex.oblige(st, line, 'loop', le(g[('len',)], g[('k',)]), 'length'); ex.oblige_eq(st, line, 'loop', g[('zip',)], IC(1), 'the archive stays open')
    h = StepLoop({'zip_fopen_index'}, set(), havoc, entry, step, lambda ex, st: [st.ghost[('k',)]])
    def latch(st): st.ghost[('k',)] = add(st.ghost[('k',)], IC(1))
    h.latch_ghost = latch; h.cases = [0, 1]; h.pcands = lambda ex, st: [NULL if st.ghost['case'] is IC(0) else Ptr(z.list, 0)]
    def split(ex, st):
        out = []
        for d in (0, 1):
            s = st.fork(); s.assume(gt(s.ghost[('len',)], IC(0)) if d else le(s.ghost[('len',)], IC(0)))
            if not solve.infeasible(s.facts()): s.ghost['case'] = IC(d); out.append(s)
        return out
    h.split = split; ex.loop_hooks = [h]; ex.split_tails = True
    c.call('npy_array_list_load', fname); seen = set()
    if not h.hits: raise Unsupported('loop over the entries not found')
    for st, rv in ex.rets:
        c.post_eq(st.ghost[('zip',)], IC(0), 'the archive is closed', st); c.post_eq(st.ghost[('ent',)], IC(0), 'no entry stays open', st)
        for cond, p in heap.feasible(st, rv):
            s = st.fork(); s.assume(cond); c.satisfiable(s)
            s1 = s.fork(); s1.assume(z.ok)
            if not solve.infeasible(s1.facts()):
                c.post_eq(s1.ghost[('k',)], z.n, 'all entries were handled', s1); c.post(z.islist(s1, p), 'the list of the arrays is returned', s1); seen.add(p.base)
            s0 = s.fork(); s0.assume(not_(z.ok))
            if not solve.infeasible(s0.facts()): c.post(TRUE if isnull(s0, p) else FALSE, 'nothing is returned when the archive cannot be opened', s0)
    c.post(TRUE if seen == {None, z.list} else FALSE, 'lists are returned', ex.rets[0][0])
    return [c] + [reader(cfg, g, SRC, 'zip_fread') for g in z.fns]
