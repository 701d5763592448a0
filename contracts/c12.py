"""Monomial sections."""
import itertools
import math

import jax.numpy as jnp
import numpy as np

import cyjax
from cyjax import donaldson
from cyjax.donaldson import MonomialBasisFull, MonomialBasisReduced
from cjv.core import Case
from cjv.extract import Sym, activate
from .common import varieties, prod, vec


def exponents(n, k):
    """All exponent vectors of n variables of degree k (specification)."""
    if n == 1:
        return [(k,)]
    return [(e, *r) for e in range(k + 1) for r in exponents(n - 1, k - e)]


def rows(m):
    return [tuple(int(x) for x in r) for r in np.asarray(m)]


def enumeration(C):
    activate()
    sizes(C)
    top = 7 if C.thorough else 6
    grid = [(dim, k) for dim in range(1, 6) for k in range(0, top if dim < 4 else 5)]
    grid += [(1, 8), (1, 12), (2, 9), (3, 7), (6, 1), (6, 3), (7, 2), (8, 2), (9, 1), (9, 2), (12, 1), (11, 2)]
    for dim, k in grid:
        inp = {'dim_proj': str(dim), 'degree': str(k)}
        size = math.comb(dim + k, k)
        try:
            m = donaldson.monomial_basis(dim, k)
            idx = donaldson.monomial_basis_indices(dim, k)
            n = donaldson.monomial_basis_size(dim, k)
            full = MonomialBasisFull(dim, k)
        except Exception as e:
            C.fail('cyjax.monomial_basis', f'dimension {dim} degree {k}', f'raised {type(e).__name__}: {e}', inp)
            continue
        S = f'dimension {dim} degree {k}'
        want = sorted(exponents(dim + 1, k))
        C.obligation_eval('cyjax.monomial_basis', f'{S}: all exponent vectors once', sorted(rows(m)) == want,
                          f'{len(rows(m))} rows, {len(set(rows(m)))} different, expected {len(want)}', inp)
        C.obligation_eval('cyjax.monomial_basis', f'{S}: integers', np.asarray(m).dtype.kind in 'iu' and np.shape(m) == (size, dim + 1),
                          f'{np.asarray(m).dtype} {np.shape(m)}', inp)
        got = sorted(tuple(int(c) for c in np.bincount(np.asarray(r, dtype=int), minlength=dim + 1)) for r in np.asarray(idx).reshape(len(idx), -1))
        C.obligation_eval('cyjax.monomial_basis_indices', f'{S}: the same monomials', got == want and np.shape(idx) == (size, k),
                          f'shape {np.shape(idx)}', inp)
        C.obligation_eval('cyjax.monomial_basis_size', S, int(n) == size, f'{n} != {size}', inp)
        C.obligation_eval('MonomialBasisFull', S, sorted(rows(full.power_matrix)) == want and full.size == size and full.degree == k,
                          f'size {full.size} degree {full.degree}', inp)


def sizes(C):
    """Number of sections modulo a polynomial of degree dim + 1."""
    F = 'cyjax.monomial_basis_size'
    for dim in range(1, 7):
        for k in range(0, dim + 5):
            want = math.comb(dim + k, k) - (math.comb(k - 1, dim) if k > dim else 0)
            inp = {'dim_proj': str(dim), 'degree': str(k), 'reduced': 'True'}
            try:
                n = donaldson.monomial_basis_size(dim, k, reduced=True)
            except Exception as e:
                C.fail(F, f'reduced, dimension {dim} degree {k}', f'raised {type(e).__name__}: {e}', inp)
                continue
            C.obligation_eval(F, f'reduced, dimension {dim} degree {k}', int(n) == want, f'{n} != {want}', inp)


def monomials(pows, z):
    return vec([prod([z[i] ** e for i, e in enumerate(p) if e] or [1]) for p in pows], z)


def insert_one(z, patch):
    one = 1
    return [*z[:patch], one, *z[patch:]]


def evaluation(C, label, sections, n):
    F = f'{type(sections).__name__}.__call__'
    pows = rows(sections.power_matrix)
    sc = f'{label}, {len(pows)} sections'
    for pre in (True, False):
        s = '' if pre else ', logarithms'
        nz = not pre

        def post_h(out, a, P):
            P.eq('sections', out, monomials(pows, a[0]))
        C.run(Case(F, f'{label}: homogeneous{s}', lambda z: sections(z, None, precompute=pre), (Sym('z', (n,), nonzero=nz),), post_h, scope=sc))
        for patch in range(n):
            def post(out, a, P):
                P.eq('sections', out, monomials(pows, np.array(insert_one(list(a[0]), patch), dtype=a[0].dtype)))
            C.run(Case(F, f'{label}: patch {patch}{s}', lambda z: sections(z, patch, precompute=pre), (Sym('z', (n - 1,), nonzero=nz),), post, scope=sc))
        C.run(Case(F, f'{label}: conjugate, patch {n - 1}{s}', lambda z: sections(z, n - 1, conj=True, precompute=pre), (Sym('z', (n - 1,), nonzero=nz),),
                   lambda out, a, P: P.eq('sections', out, monomials(pows, np.array(insert_one(list(a[0]), n - 1), dtype=a[0].dtype))), scope=sc))
        ks = np.array([n - 1, 0, 1])

        def post_b(out, a, P):
            P.same('shape', out.shape, (3, len(pows)))
            for k in range(3):
                P.eq(f'sections[{k}]', out[k], monomials(pows, np.array(insert_one(list(a[0][k]), int(ks[k])), dtype=a[0].dtype)))
        C.run(Case(F, f'{label}: batch{s}', lambda z: sections(z, ks, precompute=pre), (Sym('z', (3, n - 1), nonzero=nz),), post_b, scope=sc))

        def post_b1(out, a, P):
            P.same('shape', out.shape, (2, len(pows)))
            for k in range(2):
                P.eq(f'sections[{k}]', out[k], monomials(pows, np.array(insert_one(list(a[0][k]), 1), dtype=a[0].dtype)))
        C.run(Case(F, f'{label}: batch in one patch{s}', lambda z: sections(z, 1, precompute=pre), (Sym('z', (2, n - 1), nonzero=nz),), post_b1, scope=sc))


def made(C, F, label, f):
    try:
        s = f()
        rows(s.power_matrix)
        return s
    except Exception as e:
        C.fail(F, label, f'raised {type(e).__name__}: {e}', {'sections': label})


def run(C):
    enumeration(C)
    for dim, k in [(1, 1), (1, 4), (2, 1), (2, 2), (2, 3), (2, 0), (3, 1), (3, 2), (3, 3), (4, 1), (4, 2), (1, 7), (1, 10), (2, 5), (2, 6), (5, 1), (6, 1)] + ([(2, 8), (3, 4), (4, 3)] if C.thorough else []):
        activate()
        s = made(C, 'MonomialBasisFull', f'dimension {dim} degree {k}', lambda: MonomialBasisFull(dim, k))
        if s is not None:
            evaluation(C, f'full, dimension {dim} degree {k}', s, dim + 1)
    vs = varieties()
    for name, k, par in [('Dwork(1)', 3, [0.5 + 0.25j]), ('Fermat(2)', 4, None), ('Dwork(1)', 4, [2.]), ('cubic, two parameters', 3, [0.5, 1.])]:
        activate()
        make, Q, npar = vs[name]
        s = made(C, 'MonomialBasisReduced', f'{name} degree {k}', lambda: MonomialBasisReduced(make(), k, par if par is None else np.array(par)))
        if s is not None:
            evaluation(C, f'reduced, {name} degree {k}', s, len(Q.terms[0][2]))
