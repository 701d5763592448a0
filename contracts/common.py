"""Specifications shared by several contracts: polynomials and varieties."""
from __future__ import annotations

import numpy as np

from cyjax import VarietySingle, Fermat, Dwork

from cjv import alg
from cjv.interp import to_obj


def prod(xs):
    out = 1
    for x in xs:
        out = out * x
    return out


class P_:
    """A polynomial sum_t c_t prod_j par_j^{a_tj} prod_i z_i^{p_ti} (specification)."""

    def __init__(self, terms):
        self.terms = terms        # list of (coefficient, param powers, powers)

    def __call__(self, z, par=()):
        out = 0
        for c, a, p in self.terms:
            t = c
            for j, e in enumerate(a):
                if e:
                    t = t * par[j] ** e
            for i, e in enumerate(p):
                if e:
                    t = t * z[i] ** e
            out = out + t
        return out

    def diff(self, i):
        return P_([(c * p[i], a, tuple(e - (k == i) for k, e in enumerate(p)))
                   for c, a, p in self.terms if p[i]])

    def affine(self, patch):
        """Value one at `patch`, the others in order."""
        return P_([(c, a, tuple(e for k, e in enumerate(p) if k != patch)) for c, a, p in self.terms])

    def grad(self, z, par=()):
        n = len(self.terms[0][2])
        return vec([self.diff(i)(z, par) for i in range(n)], z)


def vec(xs, like):
    if getattr(like, 'dtype', None) == object or any(isinstance(x, alg.Frac) for x in xs):
        out = np.empty(len(xs), dtype=object)
        for k, x in enumerate(xs):
            out[k] = x if isinstance(x, alg.Frac) else alg.Frac.const(x)
        return out
    return np.array(xs)


def unit(n, i, e):
    return tuple(e if k == i else 0 for k in range(n))


def fermat_terms(n):
    return P_([(1, (), unit(n, i, n)) for i in range(n)])


def dwork_terms(n, factor=-5):
    return P_([(1, (0,), unit(n, i, n)) for i in range(n)] + [(factor, (1,), (1,) * n)])


CUBIC2 = ('z0**3 + 2*z1**3 + 3*z2**3 + a*z0*z1*z2 + b*z0**2*z1',
          P_([(1, (0, 0), (3, 0, 0)), (2, (0, 0), (0, 3, 0)), (3, (0, 0), (0, 0, 3)),
              (1, (1, 0), (1, 1, 1)), (1, (0, 1), (2, 1, 0))]))
QUADRIC = ('z0**2 + c*z1*z2 - z2**2', P_([(1, (0,), (2, 0, 0)), (1, (1,), (0, 1, 1)), (-1, (0,), (0, 0, 2))]))
QUARTIC = ('z0**4 + z1**4 - z2**4 + z3**4 + a*z0**2*z1*z2 + 2*z1*z3**3',
           P_([(1, (0,), (4, 0, 0, 0)), (1, (0,), (0, 4, 0, 0)), (-1, (0,), (0, 0, 4, 0)), (1, (0,), (0, 0, 0, 4)),
               (1, (1,), (2, 1, 1, 0)), (2, (0,), (0, 1, 0, 3))]))


def renamed(expr):
    """The same polynomial in x1, x3, x4 for z0, z1, z2."""
    for old, new in (('z0', 'x1'), ('z1', 'x3'), ('z2', 'x4')):
        expr = expr.replace(old, new)
    return expr


def varieties():
    """(name, constructor, specification of the defining polynomial, number of parameters)."""
    def sym(s, deg):
        n = {'CUBIC2': 3}.get(s, None)
        return lambda: VarietySingle.from_sympy(s, 'z', deg)
    return {
        'Fermat(1)': (lambda: Fermat(1), fermat_terms(3), 0),
        'Fermat(2)': (lambda: Fermat(2), fermat_terms(4), 0),
        'Fermat(3)': (lambda: Fermat(3), fermat_terms(5), 0),
        'Dwork(1)': (lambda: Dwork(1), dwork_terms(3), 1),
        'Dwork(2)': (lambda: Dwork(2), dwork_terms(4), 1),
        'Dwork(3)': (lambda: Dwork(3), dwork_terms(5), 1),
        'Dwork(1, factor=False)': (lambda: Dwork(1, factor=False), dwork_terms(3, 1), 1),
        'cubic, two parameters': (lambda: VarietySingle.from_sympy(CUBIC2[0], 'z', 3), CUBIC2[1], 2),
        'quartic': (lambda: VarietySingle.from_sympy(QUARTIC[0], 'z', 4), QUARTIC[1], 1),
    }
