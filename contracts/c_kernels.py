"""Contracts of the vector and matrix kernels (src/matrix_operations.c): C02, C03."""
from harness import *
SRC = ['src/matrix_operations.c']
P = {'C02': None, 'C03': SAFETY}

def vec(name, arrays, scalars, spec, order):
    """generic contract of an elementwise kernel over vectors of length n"""
    @contract(name, P, ISA, functions=[name])
    def c(cfg):
        c = Ctx(cfg, SRC)
        n = c.int('n')
        al = 4 if name.endswith('_unaligned') else c.align
        regs = {a: c.array(a, n, al, writable=(a == arrays[0])) for a in arrays}
        sc = {s: c.real(s) for s in scalars}
        for s in scalars:
            if s == 'divisor': c.assume(ne(sc[s], RC(0)))
        c.call(name, *[n if o == 'n' else regs[o] if o in regs else sc[o] for o in order])
        A = {a: (lambda a: lambda r: app(a, R, r))(a) for a in arrays}
        c.post_elem(regs[arrays[0]], n, lambda r: spec(A, sc, r))
        c.satisfiable()
        return c
vec('vector_scale', ['v'], ['s'], lambda A, s, r: A['v'](r) * s['s'], ['n', 'v', 's'])
vec('vector_divide_by_scalar', ['v'], ['divisor'], lambda A, s, r: A['v'](r) / s['divisor'], ['n', 'v', 'divisor'])
vec('vector_accumulate', ['a', 'b'], [], lambda A, s, r: A['a'](r) + A['b'](r), ['n', 'a', 'b'])
vec('vector_accumulate_unaligned', ['a', 'b'], [], lambda A, s, r: A['a'](r) + A['b'](r), ['n', 'a', 'b'])
vec('vector_saxpy', ['a', 'b'], ['alpha'], lambda A, s, r: A['a'](r) + s['alpha'] * A['b'](r), ['n', 'a', 'alpha', 'b'])
vec('vector_saxpby', ['a', 'b'], ['alpha', 'beta'], lambda A, s, r: s['beta'] * A['a'](r) + s['alpha'] * A['b'](r), ['n', 'a', 'alpha', 'b', 'beta'])
vec('vector_square_elements', ['y', 'x'], [], lambda A, s, r: A['x'](r) * A['x'](r), ['n', 'y', 'x'])

@contract('matrix_vector_multiply', P, ISA)
def mvm(cfg):
    c = Ctx(cfg, SRC)
    n, m = c.int('n'), c.int('m'); c.assume(le(n * m, IC(INT_MAX)))
    w = c.array('w', n * m, 4, False); x = c.array('x', m, 4, False); y = c.array('y', n, 4)
    c.call('matrix_vector_multiply', n, m, w, x, y)
    q = fresh('q', I)
    c.post_elem(y, n, lambda r: msum(IC(0), m, q, app('x', R, q) * app('w', R, r * m + q)))
    c.satisfiable()
    return c

@contract('vector_matrix_multiply', P, ISA)
def vmm(cfg):
    c = Ctx(cfg, SRC)
    n, m = c.int('n'), c.int('m'); c.assume(le(n * m, IC(INT_MAX)))
    w = c.array('w', n * m, 4, False); b = c.array('b', m, 4, False); x = c.array('x', n, 4, False); y = c.array('y', m, 4)
    c.call('vector_matrix_multiply', n, m, w, b, x, y)
    q = fresh('q', I)
    c.post_elem(y, m, lambda r: app('b', R, r) + msum(IC(0), n, q, app('x', R, q) * app('w', R, q * m + r)))
    c.satisfiable()
    return c

@contract('vector_vector_outer', P, ISA)
def vvo(cfg):
    c = Ctx(cfg, SRC)
    n, m = c.int('n'), c.int('m'); c.assume(le(n * m, IC(INT_MAX)))
    x = c.array('x', n, 4, False); y = c.array('y', m, 4, False)
    w = c.array('w', n * m, 4, zero=True)
    c.call('vector_vector_outer', n, m, x, y, w)
    i, j = fresh('i', I), fresh('j', I)
    s = c.st.fork()
    for t in (ge(i, IC(0)), lt(i, n), ge(j, IC(0)), lt(j, m)): s.assume(t)
    c.post_eq(s.mem[w].at(i * m + j), app('x', R, i) * app('y', R, j), 'w[i*m+j] == x[i]*y[j]', s)
    c.satisfiable()
    return c
