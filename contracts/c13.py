"""The reduced monomial basis: exact linear algebra modulo the defining polynomial."""
import math
from fractions import Fraction

import numpy as np

from cyjax import donaldson, VarietySingle, HomPoly
from cyjax.donaldson import MonomialBasisReduced
from cjv.extract import activate
from cjv import alg
from cjv.alg import Frac
from .c12 import exponents, rows
from .common import varieties, QUADRIC, P_


class G:
    """Gaussian rational."""
    __slots__ = ('re', 'im')

    def __init__(self, re, im=0):
        self.re, self.im = Fraction(re), Fraction(im)

    @staticmethod
    def of(x):
        if isinstance(x, G):
            return x
        x = complex(x)
        return G(Fraction(x.real), Fraction(x.imag))

    def __bool__(self):
        return bool(self.re or self.im)

    def __add__(self, o):
        return G(self.re + o.re, self.im + o.im)

    def __sub__(self, o):
        return G(self.re - o.re, self.im - o.im)

    def __mul__(self, o):
        return G(self.re * o.re - self.im * o.im, self.re * o.im + self.im * o.re)

    def inv(self):
        n = self.re ** 2 + self.im ** 2
        return G(self.re / n, -self.im / n)


def rank(m):
    m = [list(r) for r in m]
    r = 0
    cols = len(m[0]) if m else 0
    for c in range(cols):
        p = next((i for i in range(r, len(m)) if m[i][c]), None)
        if p is None:
            continue
        m[r], m[p] = m[p], m[r]
        iv = m[r][c].inv()
        for i in range(r + 1, len(m)):
            if m[i][c]:
                f = m[i][c] * iv
                m[i] = [x - f * y if y else x for x, y in zip(m[i], m[r])]
        r += 1
        if r == len(m):
            break
    return r


def coefficients(Q, par):
    """Exponent -> exact coefficient at the given parameters, zero terms dropped."""
    out = {}
    for c, a, p in Q.terms:
        v = G.of(c)
        for x, e in zip(par, a):
            for _ in range(e):
                v = v * G.of(x)
        out[p] = out.get(p, G(0)) + v
    return {p: v for p, v in out.items() if v}


def basis_facts(C, F, label, got, coef, n, k, inp):
    deg = sum(next(iter(coef)))
    full = exponents(n, k)
    mult = exponents(n, k - deg) if k >= deg else []
    C.obligation_eval(F, f'{label}: size', len(got) == len(full) - len(mult), f'{len(got)} != {len(full)} - {len(mult)}', inp)
    C.obligation_eval(F, f'{label}: different monomials of the degree', len(set(got)) == len(got) and set(got) <= set(full),
                      f'{got[:10]}', inp)
    removed = [e for e in full if e not in set(got)]
    if len(got) + len(mult) < len(full) or not set(got) <= set(full):
        return
    # multiples r_j Q restricted to the removed monomials: a basis iff this matrix
    # is square and invertible; spans iff full column rank, independent iff full row rank
    pos = {e: i for i, e in enumerate(removed)}
    mat = []
    for r in mult:
        row = [G(0)] * len(removed)
        for p, v in coef.items():
            e = tuple(x + y for x, y in zip(r, p))
            if e in pos:
                row[pos[e]] = row[pos[e]] + v
        mat.append(row)
    rk = rank(mat) if mat and removed else 0
    C.obligation_eval(F, f'{label}: spans modulo the polynomial', rk == len(removed), f'rank {rk} of {len(removed)}', inp)
    C.obligation_eval(F, f'{label}: independent modulo the polynomial', rk == len(mult), f'rank {rk} of {len(mult)}', inp)


def generic(C, F, label, got, Q, npar, n, k):
    """The same for all parameter values for which no term vanishes: determinant as
    polynomial in the parameters has a single term."""
    alg.reset()
    deg = sum(Q.terms[0][2])
    full, mult = exponents(n, k), exponents(n, k - deg)
    removed = [e for e in full if e not in set(got)]
    if len(removed) != len(mult) or not set(got) <= set(full):
        return
    par = [Frac.atom(alg.SPACE.cplx(f'p{j}')) for j in range(npar)]
    # triangular up to a permutation: repeatedly expand along a row with one entry
    mat = {}
    pos = {e: i for i, e in enumerate(removed)}
    for j, r in enumerate(mult):
        row = {}
        for c, a, p in Q.terms:
            e = tuple(x + y for x, y in zip(r, p))
            if e in pos:
                v = Frac.const(c)
                for x, q in zip(par, a):
                    v = v * x ** q
                row[pos[e]] = row.get(pos[e], Frac.const(0)) + v
        mat[j] = row
    det = Frac.const(1)
    while mat:
        j = next((j for j, r in mat.items() if len(r) == 1), None)
        if j is None:
            C.record(F, f'{label}: determinant', None, 'normal-form', 'matrix is not triangular')
            return
        (c, v), = mat.pop(j).items()
        det = det * v
        for r in mat.values():
            r.pop(c, None)
        if any(not r for r in mat.values()):
            det = Frac.const(0)
            break
    ok = len(det.num.t) == 1
    C.record(F, f'{label}: determinant is a non-zero monomial in the parameters', ok, 'normal-form', str(det))
    if not ok:
        C.fail(F, f'{label}: determinant', f'determinant {det}', {'degree': str(k)})


DEGEN = ('z0**3+z1**3+a*z2**3+b*z0*z1*z2',
         P_([(1, (0, 0), (3, 0, 0)), (1, (0, 0), (0, 3, 0)), (1, (1, 0), (0, 0, 3)), (1, (0, 1), (1, 1, 1))]))
NOLEAD = ('a*z0**2*z1 + z1**2*z2 - 3*z2**3 + b*z0*z1*z2',
          P_([(1, (1, 0), (2, 1, 0)), (1, (0, 0), (0, 2, 1)), (-3, (0, 0), (0, 0, 3)), (1, (0, 1), (1, 1, 1))]))


def run(C):
    vs = varieties()
    vs['quadric'] = (lambda: VarietySingle(HomPoly.from_sympy(QUADRIC[0], ['z'])), QUADRIC[1], 1)
    vs['cubic with vanishing terms'] = (lambda: VarietySingle.from_sympy(DEGEN[0], 'z', 3), DEGEN[1], 2)
    vs['cubic without a pure power'] = (lambda: VarietySingle.from_sympy(NOLEAD[0], 'z', 3), NOLEAD[1], 2)
    F = 'MonomialBasisReduced'
    for name, (make, Q, npar) in vs.items():
        activate()
        X = make()
        n = len(Q.terms[0][2])
        deg = sum(Q.terms[0][2])
        pars = [(0.5 + 0.25j, -1.5j, 2.)[:npar], (1., 1.)[:npar], (0., 0.)[:npar], (0., 1.)[:npar], (-3.25, 0.)[:npar]]
        top = {3: deg + 4, 4: deg + 2, 5: deg + 1}[n] + (1 if C.thorough else 0)
        for par in dict.fromkeys(pars):
            coef = coefficients(Q, par)
            for k in range(1, top):
                inp = {'variety': name, 'params': str(par), 'degree': str(k)}
                label = f'{name} at {par} degree {k}'
                try:
                    b = MonomialBasisReduced(X, k, np.array(par) if npar else None)
                    got = rows(b.power_matrix)
                except Exception as e:
                    C.fail(F, label, f'raised {type(e).__name__}: {e}', inp)
                    continue
                basis_facts(C, F, label, got, coef, n, k, inp)
                C.obligation_eval(F, f'{label}: reported size', b.size == len(got) and b.degree == k, f'{b.size} {b.degree}', inp)
                if len(coef) == len(Q.terms) and k >= deg and par == pars[0]:
                    generic(C, F, f'{name} degree {k}', got, Q, npar, n, k)
                if deg == n:
                    s = donaldson.monomial_basis_size(n - 1, k, reduced=True)
                    C.obligation_eval('cyjax.monomial_basis_size', f'reduced: {label}', int(s) == len(got), f'{s} != {len(got)}', inp)
    # the function on power matrices (terms in lexicographic order)
    for name, (make, Q, npar) in vs.items():
        n, deg = len(Q.terms[0][2]), sum(Q.terms[0][2])
        coef = coefficients(Q, (0.5 + 0.25j, -1.5j)[:npar])
        pows = np.array(sorted(coef, reverse=True))
        for k in range(1, deg + (3 if n < 5 else 1)):
            inp = {'polynomial': name, 'degree': str(k)}
            try:
                got = rows(donaldson.reduced_monomial_basis(k, pows))
            except Exception as e:
                C.fail('cyjax.donaldson.reduced_monomial_basis', f'{name} degree {k}', f'raised {type(e).__name__}: {e}', inp)
                continue
            basis_facts(C, 'cyjax.donaldson.reduced_monomial_basis', f'{name} degree {k}', got, coef, n, k, inp)
    # supports for which removing just any free monomial of each relation is not enough
    rng = np.random.default_rng(C.seed)
    for i, (k, pows) in enumerate(SUPPORTS + random_supports(rng, 24 if C.thorough else 6)):
        coef = {p: G(int(rng.integers(1, 99)), int(rng.integers(-9, 9))) for p in pows}
        label, inp = f'support {i} degree {k}', {'powers': str(pows), 'degree': str(k)}
        Fr = 'cyjax.donaldson.reduced_monomial_basis'
        try:
            got = rows(donaldson.reduced_monomial_basis(k, np.array(pows)))
        except Exception as e:
            C.fail(Fr, label, f'raised {type(e).__name__}: {e}', inp)
            continue
        basis_facts(C, Fr, label, got, coef, len(pows[0]), k, inp)


SUPPORTS = [
    (4, ((2, 0, 0, 0), (1, 0, 1, 0), (0, 2, 0, 0), (0, 1, 1, 0), (0, 1, 0, 1), (0, 0, 0, 2))),
    (4, ((2, 0, 0, 0), (1, 0, 1, 0), (0, 1, 1, 0), (0, 1, 0, 1), (0, 0, 2, 0), (0, 0, 0, 2))),
    (4, ((2, 0, 0, 0), (1, 1, 0, 0), (0, 1, 0, 1), (0, 0, 2, 0), (0, 0, 1, 1), (0, 0, 0, 2))),
    (7, ((4, 0, 0), (2, 2, 0), (1, 2, 1), (1, 1, 2), (1, 0, 3), (0, 0, 4))),
    (6, ((2, 1, 0), (1, 2, 0), (1, 0, 2), (0, 3, 0), (0, 2, 1))),
    (5, ((3, 0, 0), (2, 1, 0), (2, 0, 1), (1, 2, 0), (1, 1, 1), (1, 0, 2))),
    (6, ((3, 0, 0), (2, 1, 0), (2, 0, 1), (1, 2, 0), (1, 1, 1), (1, 0, 2))),
    (6, ((2, 0, 1), (1, 2, 0), (1, 1, 1), (0, 3, 0), (0, 1, 2))),
    (6, ((2, 0, 1), (1, 2, 0), (0, 3, 0), (0, 2, 1), (0, 1, 2))),
]


def random_supports(rng, count):
    out = []
    for _ in range(count):
        n, d = [(3, 2), (3, 3), (3, 4), (4, 2)][rng.integers(4)]
        full = exponents(n, d)
        pick = rng.choice(len(full), min(int(rng.integers(2, 7)), len(full)), replace=False)
        out.append((d + int(rng.integers(1, 4)), tuple(sorted((full[i] for i in pick), reverse=True))))
    return out
