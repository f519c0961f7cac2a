"""Contract tasks: set up symbolic pre-states for functions of /repo, run the verifier on
their current source, collect obligations."""
import os, sys, time, traceback
INLINES = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'stubs', 'keep_inline.c')
from fractions import Fraction
from lower import lower, LowerError
from llparse import parse
from terms import *
import terms as tm
import solve
from solve import prove, prove_eq, STATS, RANGES
from execu import *
from execu import Unsupported, Obl
import loops, cstr, heap

INT_MAX = 2 ** 31 - 1
ALIGN = {'nosimd': 16, 'avx': 32, 'avx2': 32, 'avx2nofma': 32, 'avx512': 64, 'avx512nofma': 64, 'cblas': 32}
ISA = ['nosimd', 'avx', 'avx2', 'avx512', 'avx512nofma', 'avx2nofma']
ISA4 = ['nosimd', 'avx', 'avx2', 'avx512']
SAFETY = ('bounds', 'heap', 'align', 'null', 'overflow', 'div', 'write', 'assert', 'call')

JOBS = []          # (name, fn, configs, props, cost)
class Job:
    def __init__(self, name, fn, cfg, props, functions, bounded, kw, tier='quick'):
        self.name, self.fn, self.cfg, self.props, self.functions, self.bounded, self.kw = name, fn, cfg, props, functions, bounded, kw
        self.tier = tier
    @property
    def key(self): return '%s@%s' % (self.name, self.cfg)

def contract(name, props, configs=('avx512',), functions=None, bounded=None, tier='quick', **kw):
    """register a contract task. props: {property: kinds or None(all)} or list"""
    if not isinstance(props, dict): props = {p: None for p in props}
    def deco(fn):
        for c in configs:
            JOBS.append(Job(name, fn, c, props, functions or [name], bounded, kw, tier))
        return fn
    return deco

CURRENT = []
class Ctx:
    def __init__(self, cfg, sources, contracts=None):
        self.cfg = cfg
        self.align = ALIGN[cfg]
        self.modules = [parse(lower(s, cfg)) for s in sources]
        self.ex = Exec(self.modules, cfg, contracts or {})
        self.st = State()
        CURRENT.append(self)
    # ---- symbolic inputs
    def assume(self, *ts):
        for t in ts: self.st.assume(t)
    def int(self, name, lo=0, hi=INT_MAX):
        v = var(name, I)
        RANGES[v] = (Fraction(lo), Fraction(hi))
        self.assume(ge(v, IC(lo)), le(v, IC(hi)))
        return v
    def real(self, name): return var(name, R)
    def array(self, name, n, align=4, writable=True, zero=False, content=None):
        n = n if isinstance(n, T) else IC(n)
        r = Region(name, 'arr', tm.scale(n, 4), align=align, writable=writable)
        v = fresh('r', I)
        body = RC(0) if zero else content(v) if content else app(name, R, v)
        self.st.mem[r] = Arr(v, body)
        self.assume(gt(r.addr, IC(0)))
        if align > 1: self.assume(eq(intmod(r.addr, IC(align)), IC(0)))
        return r
    # ---- execution
    def f(self, name):
        f, m = self.ex.find(name)
        if f is None: raise Unsupported('function %s not found' % name)
        return f, m
    def call(self, name, *args):
        a = [Ptr(x, 0) if isinstance(x, Region) else x if not isinstance(x, int) else IC(x) for x in args]
        if isinstance(name, Fn):
            f, m = self.ex.find(name.name, name.module)
        else: f, m = self.f(name)
        if len(f.params) != len(a) and not f.vararg: raise Unsupported('signature of %s changed' % f.name)
        rv, out = self.ex.call_function(f, m, a, self.st)
        self.cur = f
        if out is None: self.post(FALSE, 'function never returns'); out = self.st
        self.st = out
        return rv
    # ---- postconditions
    def _oblige(self, fn):
        f = getattr(self, 'cur', None)
        if f is not None: self.ex.fnstack.append(f)
        try: return fn()
        finally:
            if f is not None: self.ex.fnstack.pop()
    def post(self, goal, desc='', st=None):
        return self._oblige(lambda: self.ex.oblige(st or self.st, 0, 'post', goal, desc))
    def post_eq(self, a, b, desc='', st=None):
        return self._oblige(lambda: self.ex.oblige_eq(st or self.st, 0, 'post', a, b, desc))
    def at(self, reg, i): return self.st.mem[reg].at(i if isinstance(i, T) else IC(i))
    def post_elem(self, reg, n, want, desc=None):
        """forall 0<=r<n: reg[r] == want(r)"""
        r = fresh('r', I)
        s = self.st.fork()
        n = n if isinstance(n, T) else IC(n)
        s.assume(ge(r, IC(0))); s.assume(lt(r, n))
        return self.post_eq(s.mem[reg].at(r), want(r), desc or ('%s[r]' % reg.name), s)
    def post_same(self, reg, desc=None):
        r = fresh('r', I)
        s = self.st.fork()
        s.assume(ge(r, IC(0)))
        if reg.size is not None: s.assume(lt(tm.scale(r, reg.es), reg.size))
        return self.post_eq(s.mem[reg].at(r), app(reg.name, reg.sort, r), desc or ('%s unchanged' % reg.name), s)
    def satisfiable(self, st=None):
        """vacuity guard: the facts on the final path are consistent"""
        st = st or self.st
        if solve.infeasible(st.facts()):
            self._oblige(lambda: self.ex.obls.append(Obl('vacuity', 0, 'post', 'final state is reachable', False, FALSE, [])))
        else:
            self.ex.notes.add('reachability of the final state checked')

def run_job(job, budget=600):
    """-> dict summary"""
    t0 = time.time()
    RANGES.clear(); solve.clear_cache(); CURRENT.clear(); loops.FORALL.clear()
    for k in list(STATS): STATS[k] = 0
    res = dict(job=job.key, name=job.name, cfg=job.cfg, functions=list(job.functions), bounded=job.bounded, obls=[], error=None)
    ctx = None
    try:
        ctx = job.fn(job.cfg, **job.kw)
        ctxs = ctx if isinstance(ctx, list) else [ctx]
        if not ctxs or ctxs[0] is None: raise Unsupported('contract returned no context')
    except (Unsupported, LowerError) as e:
        res['error'] = '%s: %s' % (type(e).__name__, str(e)[:600])
        ctxs = list(CURRENT)
    except RecursionError as e:
        res['error'] = 'RecursionError'; ctxs = list(CURRENT)
    except Exception as e:
        res['error'] = 'internal %s: %s\n%s' % (type(e).__name__, str(e)[:300], traceback.format_exc()[-1200:]); ctxs = list(CURRENT)
    inl, used, ext, notes = set(), set(), set(), set()
    for c in ctxs:
        for o in c.ex.obls:
            res['obls'].append(dict(fn=o.fn, line=o.line, kind=o.kind, desc=o.desc, ok=bool(o.ok),
                                    goal=None if o.ok or o.goal is None else pp(o.goal)[:800],
                                    facts=None if o.ok or not o.facts else [pp(x)[:160] for x in o.facts[:40]]))
        inl |= set(c.ex.inlined); used |= set(c.ex.used_contracts); ext |= set(c.ex.externals); notes |= set(c.ex.notes)
    res.update(inlined=sorted(map(str, inl)), contracts=sorted(map(str, used)), externals=sorted(map(str, ext)), notes=sorted(notes),
               z3=STATS.get('z3_queries', 0), z3_time=round(STATS.get('z3_time', 0), 3), syntactic=STATS.get('syntactic', 0),
               wall=round(time.time() - t0, 2))
    return res
