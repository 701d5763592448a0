"""Derivatives of the metric and the Ricci tensor."""
from fractions import Fraction

import jax.numpy as jnp
import numpy as np

from cyjax import Fermat
from cyjax.donaldson import AlgebraicMetric, MonomialBasisFull
from cjv import alg
from cjv.core import Case
from cjv.extract import Sym, activate
from . import anygeom
from .c09 import argpar
from .c10 import nonsing
from .c12 import rows
from .c14 import section_nodes, psi_nodes, g_proj_nodes, jac_nodes, loc_nodes, numeric_alt, positive_h, without
from .common import varieties
from .geom import Derivations, Spec, Shaped, herm, herm4, nodes_post, make, pick, oracle, real_vector

O = 'GeometricObjects.'


def ricci_nodes(C):
    """Ricci tensor from the metric in local coordinates and its derivatives."""
    names = ('g_loc_inv', 'ricci_proj', 'g_loc_a')
    for n, m in ((2, 1), (2, 2), (3, 2)) + (((2, 3), (4, 3)) if C.thorough else ((2, 3),)):
        activate()
        X = Fermat(n - 1)
        syms = (herm('g', m), Shaped('gh', (n, m, m)), herm4('gha', n, m))

        def build(g, gh, gha):
            D = Derivations(n)
            for c in range(n):
                for i in range(m):
                    for j in range(m):
                        D.set(c, g[i, j], gh[c, i, j])
                        for d in range(n):
                            D.set(c, gh[d, j, i].conjugate(), gha[c, d, i, j])
            D.forbid(gh), D.forbid(gha)
            return Spec(D, 1, g_loc=g)

        def fn(*a):
            z = jnp.ones(n, complex)
            over = tuple(zip(('g_loc', 'g_loc_h', 'g_loc_ha'), a))
            return pick(make(X, MonomialBasisFull(n, 1), jnp.eye(n + 1), z, None, 0, 0, over=over), names)
        lab = f'n={n} metric {m}x{m}'
        C.run(Case(O + 'ricci_proj', lab, fn, syms, nodes_post(names, syms, build), scope=lab, abstract=True, gen=positive_g(m),
                   alt=numeric_alt(C, O + 'ricci_proj', lab + ' (whole)', names, n)))


def positive_g(m):
    def gen(rng):
        A = rng.normal(size=(m, m)) + 1j * rng.normal(size=(m, m))
        return {'g': A @ A.conj().T + np.eye(m)}
    return gen


def trace_nodes(C):
    """Pullback and trace of the Ricci tensor."""
    names = ('ricci_loc', 'ricci_scalar')
    for n, m in ((2, 1), (3, 2), (4, 3)):
        activate()
        X = Fermat(n - 1)
        syms = (herm('g', m), Shaped('R', (n, n)), Shaped('J', (m, n)))

        def fn(*a):
            z = jnp.ones(n, complex)
            over = tuple(zip(('g_loc', 'ricci_proj', 'jac'), a))
            return pick(make(X, MonomialBasisFull(n, 1), jnp.eye(n + 1), z, None, 0, 0, over=over), names)
        lab = f'n={n}'
        C.run(Case(O + 'ricci_scalar', lab, fn, syms,
                   nodes_post(names, syms, lambda g, R, J: Spec(Derivations(n), 1, g_loc=g, ricci_proj=R, jac=J)),
                   scope=lab, abstract=True, gen=positive_g(m), alt=numeric_alt(C, O + 'ricci_scalar', lab + ' (whole)', names, n)))


def whole(C):
    """ricci and ricci_scalar of AlgebraicMetric are the nodes of the object for the same
    choices (exact point, one generic complex entry of h for the first variety)."""
    vs = varieties()
    for name, full in (('Fermat(1)', True), ('Dwork(1)', False), ('Fermat(2)', False)):
        mk, Q, npar = vs[name]
        activate()
        X = mk()
        n = len(Q.terms[0][2]) - 1
        basis = MonomialBasisFull(n, 1)
        pows = rows(basis.power_matrix)
        M = AlgebraicMetric(X, basis)
        par, tail = argpar(npar)
        h = Sparse('h', n + 1, full)
        par = (Known('par', (npar,)),) if npar else ()
        z = Known('z', (n,))
        for patch in range(n + 1) if full else (n,):
            for d in range(n) if full else (0, n - 1):
                def fn(h, z, *p):
                    p = p or tail
                    obj = make(X, basis, h, z, *p, patch, d)
                    return (*M.ricci(h, z, *p, patch, d), M.ricci_scalar(h, z, *p, patch, d), obj.ricci_loc, obj.ricci_scalar)

                def post(out, a, P):
                    R, pt, dep, S, R2, S2 = out
                    P.eq('Ricci tensor', R, R2)
                    P.eq('Ricci scalar', S, S2)
                    P.same('patch', int(pt), patch)
                    P.same('dependent', int(dep), d)
                    if not P.symbolic:
                        want = oracle(Q, pows, 1, a[0], a[1], a[2] if npar else (), patch, d)
                        P.eq('Ricci tensor (derivatives)', R, want['ricci_loc'])
                        P.eq('Ricci scalar (derivatives)', S, want['ricci_scalar'])
                C.run(Case('AlgebraicMetric.ricci', f'{name}: patch {patch} dependent {d}', fn, (h, z) + par, post, gen=gen_h(n + 1),
                           scope=name, pre=nonsing(Q.affine(patch), npar), tol=1e-5))


class Sparse(Shaped):
    """Hermitian matrix: known diagonal and one pair of entries, generic if requested."""

    def __init__(self, name, n, generic):
        super().__init__(name, (n, n), herm(name, n).canon)
        self.generic = generic

    def atoms(self):
        out = super().atoms()
        n = self.shape[0]
        for i in np.ndindex(n, n):
            if i[0] == i[1]:
                out[i] = alg.Frac.const(n + i[0])
            elif set(i) != {0, 1}:
                out[i] = alg.ZERO
            elif not self.generic:
                out[i] = alg.Frac.const(1 + (i[1] - i[0]) * 1j)
        return out


class Known(Sym):
    """A fixed exact point in symbolic mode, random numbers otherwise."""

    def atoms(self):
        out = np.empty(self.shape, dtype=object)
        for k, i in enumerate(np.ndindex(*self.shape)):
            out[i] = alg.Frac.const(Fraction(k + 2, 3)) + alg.Frac.const(1j) * alg.Frac.const(Fraction(2 * k - 1, 2))
        return out


def gen_h(N):
    def gen(rng):
        A = rng.normal(size=(N, N)) + 1j * rng.normal(size=(N, N))
        return {'h': A @ A.conj().T + np.eye(N)}
    return gen


def homogeneous(C):
    """Homogeneous input gives the tensor in the reported patch and coordinates (bounded)."""
    vs = varieties()
    for name in ('Dwork(1)', 'quartic'):
        mk, Q, npar = vs[name]
        activate()
        X = mk()
        n = len(Q.terms[0][2]) - 1
        basis = MonomialBasisFull(n, 2)
        pows = rows(basis.power_matrix)
        M = AlgebraicMetric(X, basis)
        par, tail = argpar(npar)

        def post(out, a, P):
            (R, pt, dep), S = out
            pt, dep = int(pt), int(dep)
            z = np.delete(a[1] / a[1][pt], pt)
            want = oracle(Q, pows, 2, a[0], z, a[2] if npar else (), pt, dep)
            P.eq('Ricci tensor', R, want['ricci_loc'])
            P.eq('Ricci scalar', S, want['ricci_scalar'])
        C.run(Case('AlgebraicMetric.ricci', f'{name}: homogeneous coordinates, random points',
                   lambda h, Z, *p: (M.ricci(h, Z, *(p or tail)), M.ricci_scalar(h, Z, *(p or tail))),
                   (herm('h', len(pows)), Sym('Z', (n + 1,))) + par, post, gen=gen_h(len(pows)), symbolic=False, tries=6, tol=1e-5))


def diagonal(C):
    """h as a vector of diagonal entries, whole object (bounded)."""
    names = ('psi', 'psi_h', 'psi_hh', 'psi_hha', 'psi_hhaa', 'g_proj_h', 'g_proj_ha', 'g_loc_h', 'g_loc_ha', 'ricci_proj', 'ricci_loc', 'ricci_scalar')
    for n in (2, 3):
        name = {2: 'Dwork(1)', 3: 'quartic'}[n]
        mk, Q, npar = varieties()[name]
        activate()
        X = mk()
        basis = MonomialBasisFull(n, 2)
        pows = rows(basis.power_matrix)
        N = len(pows)
        C.run(Case('GeometricObjects', f'{name}: diagonal h, random points', lambda h, z, p: pick(make(X, basis, h, z, p, 0, 1), names),
                   (real_vector('h', N), Sym('z', (n,)), Sym('par', (npar,))),
                   lambda out, a, P: [P.eq(nm, got, want[nm]) for want in [oracle(Q, pows, 2, *a, 0, 1)] for nm, got in zip(names, out)],
                   gen=lambda rng: {'h': 1 + rng.random(N)}, symbolic=False, tries=4, tol=1e-5))


ALL = ('psi_hh', 'psi_aa', 'psi_hha', 'psi_hhaa', 'g_proj_h', 'g_proj_a', 'g_proj_ha', 'jac_h', 'g_loc_h', 'g_loc_a', 'g_loc_ha',
       'g_loc_inv', 'ricci_proj', 'ricci_loc', 'ricci_scalar')


def run(C):
    C.total = False
    anygeom.jets(C, ['s_1', 's_2', 's_2_c'])
    anygeom.psi(C, ['a', 'c', 'ac', 'ab', 'cd', 'abc', 'abcd'])
    anygeom.g_proj(C, ['g_proj', 'g_proj_h', 'g_proj_a', 'g_proj_ha'])
    anygeom.embedding(C, ['jac', 'jac_h'])
    anygeom.g_loc(C, ['g_loc', 'g_loc_h', 'g_loc_a', 'g_loc_ha'])
    anygeom.ricci(C)
    section_nodes(C, ('s_1', 's_2', 's_2_c'))
    psi_nodes(C, ('psi_h', 'psi_a', 'psi_ha', 'psi_hh', 'psi_aa', 'psi_hha', 'psi_hhaa'))
    g_proj_nodes(C, ('g_proj', 'g_proj_h', 'g_proj_a', 'g_proj_ha'))
    jac_nodes(C, ('jac', 'jac_h'))
    loc_nodes(C, ('g_loc', 'g_loc_h', 'g_loc_a', 'g_loc_ha'))
    ricci_nodes(C)
    trace_nodes(C)
    whole(C)
    homogeneous(C)
    diagonal(C)
    for n in (2, 3):
        C.run(numeric_alt(C, 'GeometricObjects', f'whole object at random points, n={n}', ALL, n))
