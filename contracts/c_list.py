"""Array lists (C20): a list is a chain of n nodes for an arbitrary n; each operation is verified
against sequence semantics with one symbolic list, so any history of operations follows."""
from harness import *
import steps, heap, varargs, chain
from chain import Chain, Family
from layout import layout

SRC = ['npy_array/npy_array_list.c', 'npy_array/npy_array.c']
def mk(c, n=None, names=True):
    n = n if n is not None else c.int('n', 0, 2 ** 40)
    arr = Family(c, 'arrays'); nm = Family(c, 'names')
    return n, Chain(c, 'list', 'npy_array_list.h', 'npy_array_list_t', {'array': (arr, True), 'filename': (nm, True), 'next': ('next', True)}, n), arr, nm

def isnull(st, p): return isinstance(p, Ptr) and p.base is None and prove(st.facts(), eq(p.off, IC(0)))
def ispos(p, base, off=None): return isinstance(p, Ptr) and p.base is base and (off is None or p.off is off)

def extend(cfg, oper):
    out = []
    for case in ('empty', 'list'):
        c = Ctx(cfg, SRC)
        n, ch, fa, fn = mk(c, IC(0) if case == 'empty' else c.int('n', 1, 2 ** 40))
        A = Region('array', 'cells', IC(256), writable=False, align=16); c.st.mem[A] = {}
        fmt = cstr.symregion(c.ex, c.st, 'format')
        rv = c.call('npy_array_list_' + oper, NULL if case == 'empty' else ch.head(), A, fmt)
        F = varargs.textlen(c.st, 'format')
        L = ch.L
        # the node: the block that is not the text
        la = heap.feasible(c.st, rv)
        nodes = [r for r in c.ex.heap if isinstance(c.st.mem.get(r), dict)]
        if len(nodes) != 1: raise Unsupported('%d node blocks are allocated' % len(nodes))
        node = nodes[0]
        okn = node.ok
        # memory runs out: the list is handed back as it was
        s0 = c.st.fork(); s0.assume(not_(okn))
        if not solve.infeasible(s0.facts()):
            ls = heap.feasible(s0, rv)
            good = len(ls) == 1 and (ls[0][1].base is None and ls[0][1].off is IC(0) if case == 'empty' else ispos(ls[0][1], ch.reg, IC(0)))
            c.post(TRUE if good else FALSE, 'out of memory: the list is returned unchanged', s0)
            c.post_eq(s0.ghost.get(('wr', 'list'), IC(0)), IC(0), 'out of memory: no node is changed', s0)
            for r in c.ex.heap: c.post_eq(heap.live(s0, r), IC(0), 'out of memory: nothing is leaked', s0)
        s1 = c.st.fork(); s1.assume(okn)
        ls = heap.feasible(s1, rv)
        newfirst = case == 'empty' or oper == 'prepend'
        want = (lambda p: ispos(p, node, IC(0))) if newfirst else (lambda p: ispos(p, ch.reg, IC(0)))
        c.post(TRUE if len(ls) == 1 and want(ls[0][1]) else FALSE, 'first element of the result', s1)
        m = s1.mem[node]
        def cell(f): e = m.get(L[f]); return e[1] if e else None
        def alts_(v): return heap.feasible(s1, v) if v is not None else []
        x = alts_(cell('array')); c.post(TRUE if len(x) == 1 and ispos(x[0][1], A, IC(0)) else FALSE, 'the new element holds the given array', s1)
        x = alts_(cell('next'))
        c.post(TRUE if len(x) == 1 and (ispos(x[0][1], ch.reg, IC(0)) if oper == 'prepend' and case == 'list' else isnull(s1, x[0][1])) else FALSE,
               'the new element is followed by ' + ('the old list' if oper == 'prepend' else 'nothing'), s1)
        for f in ('array', 'next', 'filename'): c.post(TRUE if cell(f) is not None else FALSE, 'field %s of the new element is set' % f, s1)
        # links between the old elements
        if oper == 'append' and case == 'list':
            c.post_eq(s1.ghost[('wr', 'list')], IC(1), 'one link is changed', s1)
            for f, k, v, st in ch.writes:
                c.post(TRUE if f == 'next' else FALSE, 'only a link is changed', st)
                c.post_eq(k, sub(n, IC(1)), 'the link of the last element is changed', st)
                la = heap.feasible(st, v); c.post(TRUE if len(la) == 1 and ispos(la[0][1], node, IC(0)) else FALSE, 'the last element is followed by the new one', st)
        else: c.post_eq(s1.ghost.get(('wr', 'list'), IC(0)), IC(0), 'no element of the old list is changed', s1)
        # the stored name
        fv = cell('filename')
        held = []
        if fv is not None:
            for cond, p in heap.feasible(s1, fv):
                s2 = s1.fork(); s2.assume(cond)
                if p.base is None:
                    c.post(TRUE if isnull(s2, p) else FALSE, 'name is a text or nothing', s2)
                    oks = [r.ok for r in c.ex.heap if r is not node]
                    c.post(or_(lt(F, IC(0)), gt(F, IC(80)), *[not_(o) for o in oks]), 'a name of at most 80 characters is stored', s2)
                else:
                    held.append((cond, p.base))
                    c.post(TRUE if getattr(p.base, 'heap', None) and p.off is IC(0) else FALSE, 'the name is a block of its own', s2)
                    r = fresh('r', I); s3 = s2.fork(); s3.assume(ge(r, IC(0))); s3.assume(le(r, F))
                    if isinstance(s3.mem.get(p.base), Arr): c.post_eq(s3.mem[p.base].at(r), ite(lt(r, F), app('text_format', I, r), IC(0)), 'the name is an exact copy of the formatted text', s3)
                    else: c.post(FALSE, 'the name is the formatted text', s3)
        for r in c.ex.heap:
            if r is node: c.post_eq(heap.live(s1, r), IC(1), 'the element stays allocated', s1)
            else: c.post_eq(heap.live(s1, r), ite(and_(*[], or_(*[cd for cd, b in held if b is r])), IC(1), IC(0)), 'the text block is owned by the element or released', s1)
        c.satisfiable(s1); out.append(c)
    return out

for o in ('append', 'prepend'):
    contract('npy_array_list_' + o, {'C20': None, 'C11': None} if o == 'append' else {'C20': None}, ['nosimd'], functions=['npy_array_list_' + o, '_list_' + o, '_va_args_filename', 'npy_array_list_new'])(lambda cfg, o=o: extend(cfg, o))

@contract('npy_array_list_length', {'C20': None, 'C11': None}, ['nosimd'])
def length(cfg):
    c = Ctx(cfg, SRC); n, ch, fa, fn = mk(c)
    ch.reg.writable = False
    rv = c.call('npy_array_list_length', ch.head())
    c.post_eq(rv, n, 'number of elements')
    c.satisfiable(); return c

@contract('npy_array_list_free', {'C20': None, 'C11': None}, ['nosimd'])
def free_(cfg):
    out = []
    for case in ('empty', 'list'):
        c = Ctx(cfg, SRC[:1]); n, ch, fa, fn = mk(c, IC(0) if case == 'empty' else None)
        fams = ('list', 'arrays', 'names')
        def init(st):
            for x in fams: st.ghost[('prefix', x)] = IC(0); st.ghost[('freed', x)] = IC(0)
        init(c.st)
        def release(ex, f, it, st, a):
            p = a[0]
            for cond, q in heap.feasible(st, p):
                ex.oblige(st, it.line, 'call', or_(not_(cond), TRUE if q.base is fa.reg else FALSE), 'npy_array_free is given an array of the list')
            heap.do_free(ex, st, p, it.line, 'npy_array_free'); return st
        c.ex.contracts = dict(npy_array_free=release)
        def havoc(ex, st):
            k = c.kvar
            st.assume(and_(ge(k, IC(0)), le(k, n)))
            for x in fams: st.ghost[('prefix', x)] = k; st.ghost[('freed', x)] = IC(0)
        def entry(ex, st, line):
            for x in fams: ex.oblige(st, line, 'loop', and_(eq(st.ghost[('prefix', x)], IC(0)), eq(st.ghost[('freed', x)], IC(0))), 'nothing is released before the loop')
        def step(ex, st, line):
            k = c.kvar; g = lambda x: st.ghost[('freed', x)]
            ex.oblige(st, line, 'loop', eq(g('list'), IC(1)), 'each element is released')
            ex.oblige(st, line, 'loop', eq(g('arrays'), ite(app('has_arrays', B, k), IC(1), IC(0))), 'the array of each element is released')
            ex.oblige(st, line, 'loop', eq(g('names'), ite(app('has_names', B, k), IC(1), IC(0))), 'the name of each element is released')
        c.kvar = var('k_released', I); RANGES[c.kvar] = (Fraction(0), Fraction(2 ** 40))
        hk = steps.StepLoop(['free', 'npy_array_free'], set(), havoc, entry, step,
                            cands=lambda ex, st: [tm.scale(add(st.ghost[('prefix', 'list')], st.ghost[('freed', 'list')]), chain.STRIDE), add(st.ghost[('prefix', 'list')], st.ghost[('freed', 'list')])], marks=[n])
        c.ex.loop_hooks = [hk]
        c.call('npy_array_list_free', NULL if case == 'empty' else ch.head())
        for x in ('list',): c.post_eq(add(c.st.ghost[('prefix', x)], c.st.ghost[('freed', x)]), n, 'every element is released')
        c.post_eq(c.st.ghost[('wr', 'list')], IC(0), 'no element is written')
        c.satisfiable(); out.append(c)
    return out

@contract('npy_array_free', {'C20': None, 'C10': None, 'C11': None}, ['nosimd'])
def afree(cfg):
    out = []
    for case in ('null', 'own data', 'mapped'):
        c = Ctx(cfg, ['npy_array/npy_array.c']); c.ex.heap_may_fail = False
        fields = ['data', 'map_addr', 'map_length']
        L = layout('npy_array.h', 'npy_array_t', fields, cfg)
        c.st.ghost['unmapped'] = IC(0)
        if case == 'null':
            c.call('npy_array_free', NULL); c.satisfiable(); out.append(c); continue
        o, _ = heap.newregion(c.ex, c.st, IC(L['sizeof']), 16)
        d = None
        mp = Region('map', 'cells', None, align=4096); c.st.mem[mp] = {}
        ml = c.int('map_length', 1, 2 ** 62); off = c.int('data_offset', 0, 2 ** 40)
        m = {}
        if case == 'own data':
            d, _ = heap.newregion(c.ex, c.st, c.int('datasize', 0, 2 ** 62), 16)
            m[L['data']] = (8, Ptr(d, 0)); m[L['map_addr']] = (8, NULL); m[L['map_length']] = (8, var('any_length', I))
        else: m[L['data']] = (8, Ptr(mp, off)); m[L['map_addr']] = (8, Ptr(mp, 0)); m[L['map_length']] = (8, ml)
        c.st.mem[o] = m
        def munmap(ex, f, it, st, a):
            ex.oblige(st, it.line, 'call', TRUE if ispos(a[0], mp, IC(0)) else FALSE, 'munmap of the mapping')
            ex.oblige(st, it.line, 'call', eq(a[1], ml), 'munmap of the whole mapping')
            st.ghost['unmapped'] = add(st.ghost['unmapped'], IC(1))
            if it.res is not None: st.env[it.res] = fresh('munmap', I)
            return st
        c.ex.contracts = dict(munmap=munmap)
        c.call('npy_array_free', o)
        c.post_eq(heap.live(c.st, o), IC(0), 'the array structure is released')
        if d: c.post_eq(heap.live(c.st, d), IC(0), 'the data is released')
        c.post_eq(c.st.ghost['unmapped'], IC(0 if d else 1), 'mapping is removed exactly once')
        c.satisfiable(); out.append(c)
    return out
