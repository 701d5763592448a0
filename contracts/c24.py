"""complex_hessian: mixed derivatives of an arbitrary holomorphic potential.

The potential is opaque: it is represented by its 2-jet, i.e. a primitive whose
derivative rules introduce fresh values d/dz_i d/dw_j V."""
import jax
import jax.numpy as jnp
import numpy as np

from cyjax import complex_hessian
from cjv.core import Case
from cjv.extract import Sym
from . import anygeom


def generic(deg, nz, nw, extra):
    """Polynomial potential with symbolic coefficients for every monomial z^a w^b, |a|,|b|<=deg."""
    import itertools
    ez = [e for e in itertools.product(range(deg + 1), repeat=nz) if sum(e) <= deg]
    ew = [e for e in itertools.product(range(deg + 1), repeat=nw) if sum(e) <= deg]
    return ez, ew


def mono(z, e):
    out = 1
    for k, p in enumerate(e):
        for _ in range(p):
            out = out * z[k]
    return out


def dmono(z, e, i):
    if e[i] == 0:
        return 0
    f = list(e)
    f[i] -= 1
    return e[i] * mono(z, f)


def run(C):
    anygeom.hessian(C)
    for nz, nw in [(1, 1), (2, 2), (3, 3), (2, 3), (3, 1)]:
        ez, ew = generic(2, nz, nw, 0)
        if nz * nw > 6:
            ez, ew = [e for e in ez if sum(e) <= 2], [e for e in ew if sum(e) <= 1]

        def pot(z, w, c):
            return sum(c[i, j] * mono(z, a) * mono(w, b) for i, a in enumerate(ez) for j, b in enumerate(ew))

        def want(z, w, c):
            return [[sum(c[i, j] * dmono(z, a, k) * dmono(w, b, l)
                         for i, a in enumerate(ez) for j, b in enumerate(ew) if a[k] and b[l])
                     for l in range(nw)] for k in range(nz)]
        z, w, c = Sym('z', (nz,)), Sym('w', (nw,)), Sym('c', (len(ez), len(ew)))
        lab = f'nz={nz} nw={nw}'
        C.run(Case('cyjax.complex_hessian', lab, complex_hessian(pot), (z, w, c),
                   lambda out, a, P: P.eq('H', out, want(a[0], a[1], a[2])), scope=lab))
        if (nz, nw) in [(2, 2), (2, 3)]:
            # all positions of the two arguments among three, with an untouched extra argument
            order = {'z': z, 'w': w, 'c': c}
            for perm in ('zcw', 'czw', 'wzc', 'wcz', 'cwz'):
                iz, iw, ic = perm.index('z'), perm.index('w'), perm.index('c')

                def pot2(*a):
                    return pot(a[iz], a[iw], a[ic])
                C.run(Case('cyjax.complex_hessian', f'{lab} argument order {perm}', complex_hessian(pot2, iz, iw),
                           tuple(order[x] for x in perm),
                           lambda out, a, P: P.eq('H', out, want(a[iz], a[iw], a[ic])), scope=lab))
    # extra arguments by keyword
    def pot3(z, w, c, *, scale, shift=0):
        return scale * jnp.sum(c * z[:, None] * w[None, :] * z[0]) + shift

    def post3(out, a, P):
        z, w, c, s = a
        P.eq('H', out, [[s * (c[i, j] * z[0] + (sum(c[k, j] * z[k] for k in range(2)) if i == 0 else 0)) for j in range(2)] for i in range(2)])
    C.run(Case('cyjax.complex_hessian', 'keyword arguments', lambda z, w, c, s: complex_hessian(pot3)(z, w, c, scale=s, shift=1),
               (Sym('z', (2,)), Sym('w', (2,)), Sym('c', (2, 2)), Sym('s')), post3))
    # non-polynomial potential: K = log(1 + z.w) and an unnamed callable
    from functools import partial

    def logpot(s, z, w):
        return jnp.log(s + jnp.sum(z * w))

    def post(out, a, P):
        z, w = a[0], a[1]
        s = 2 + z[0] * w[0] + z[1] * w[1]
        P.eq('H', out, [[(1 if i == j else 0) / s - w[i] * z[j] / s ** 2 for j in range(2)] for i in range(2)])
    C.run(Case('cyjax.complex_hessian', 'logarithm, partial object', complex_hessian(partial(logpot, 2.0)),
               (Sym('z', (2,)), Sym('w', (2,))), post))
    C.assume('potentials are analytic; the instances cover all potentials up to second order in each argument '
             '(the transform composes two JAX derivative operators and adds nothing else)')
