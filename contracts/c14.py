"""Kahler potential and metric of the algebraic ansatz."""
import jax
import jax.numpy as jnp
import numpy as np

from cyjax import Fermat
from cyjax.donaldson import AlgebraicMetric
from cyjax.donaldson import MonomialBasisFull, MonomialBasisReduced
from cjv import alg
from cjv.core import Case
from cjv.extract import Sym, activate
from cjv.interp import to_obj
from . import anygeom
from .c09 import argpar
from .c10 import nonsing
from .c12 import rows, monomials, insert_one
from .common import varieties
from .geom import (Derivations, Spec, Shaped, Jet, herm, herm4, real_vector, jet_sections, psi_jets, psi_derivations,
                   section_derivations, psi_value, nodes_post, make, pick, oracle, evaluate)

O = 'GeometricObjects.'


def coordinate_derivations(z):
    D = Derivations(len(z))
    for c in range(len(z)):
        for i in range(len(z)):
            D.set(c, z[i], alg.ONE if i == c else alg.ZERO)
    return D


# ---------------------------------------------------------------- nodes of the object

def section_nodes(C, names):
    """s and its derivatives for the monomial sections."""
    for n, degrees in ((2, (1, 2, 3)), (3, (1, 2)), (4, (1, 2) if C.thorough else (1,))):
        activate()
        X = Fermat(n - 1)
        for k in degrees:
            bases = [('full', MonomialBasisFull(n, k))]
            if k == 3:
                bases.append(('reduced', MonomialBasisReduced(X, k, ())))
            for lab, basis in bases:
                pows = rows(basis.power_matrix)
                for patch in range(n + 1):
                    one_case(C, names, X, basis, pows, n, k, patch, lab)


def one_case(C, names, X, basis, pows, n, k, patch, lab):
    zsym = Sym('z', (n,))

    def build(z):
        D = coordinate_derivations(z)
        pt = np.empty(n + 1, dtype=object)
        pt[:] = [x if isinstance(x, alg.Frac) else alg.ONE for x in insert_one(list(z), patch)]
        s = to_obj(monomials(pows, pt))
        s1 = np.array([[D.d(c, x) for c in range(n)] for x in s], dtype=object)
        s2 = np.array([[[D.d(c, D.d(b, x)) for c in range(n)] for b in range(n)] for x in s], dtype=object)
        cj = np.vectorize(lambda v: v.conjugate(), otypes=[object])
        return {'s': s, 's_1': s1, 's_2': s2, 's_c': cj(s), 's_1_c': cj(s1), 's_2_c': cj(s2)}
    C.run(Case(O + 's', f'{lab} degree {k} on P^{n}, patch {patch}: ' + ' '.join(names),
               lambda z: pick(make(X, basis, jnp.ones(len(pows)), z, None, patch), names), (zsym,),
               nodes_post(names, (zsym,), build), scope=f'n={n} k={k}'))


def psi_nodes(C, names):
    """psi and its derivatives from generic sections and generic Hermitian or diagonal h."""
    for N, n in ((1, 2), (2, 2), (3, 2), (2, 3), (4, 2)) + (((3, 3), (5, 2), (2, 4)) if C.thorough else ()):
        activate()
        X = Fermat(n - 1)
        for form, h in (('matrix', herm('h', N)), ('diagonal', real_vector('h', N))):
            syms = (h, *jet_sections(N, n))

            def build(h, s, s1, s2):
                return Spec(section_derivations(n, h, s, s1, s2), 3, psi=psi_value(h, s))

            def fn(h, s, s1, s2, z):
                return pick(make(X, Jet(3, z, s, s1, s2), h, z, None, 0), names)
            C.run(Case(O + 'psi', f'{form} h, {N} sections of {n} coordinates: ' + ' '.join(names), fn, (*syms, Sym('z', (n,))),
                       nodes_post(names, syms, build), scope=f'N={N} n={n}', gen=positive_h(N) if form == 'matrix' else positive_diagonal(N)))


def g_proj_nodes(C, names):
    """Ambient metric from the derivatives of psi."""
    for n in (2, 3, 4) if len(names) == 1 else (2, 3):
        for k in (1, 3):
            activate()
            X = Fermat(n - 1)
            syms = psi_jets(n)
            keys = ('psi', 'psi_h', 'psi_ha', 'psi_hh', 'psi_hha', 'psi_hhaa')

            def build(*jets):
                return Spec(psi_derivations(n, *jets), k, psi=jets[0][()])

            def fn(*a):
                z = jnp.zeros(n, complex)
                blank = Jet(k, z, jnp.ones(1), jnp.ones((1, n)), jnp.ones((1, n, n)))
                obj = make(X, blank, jnp.ones((1, 1)), z, None, 0, over=tuple(zip(keys, a)))
                return pick(obj, names)
            jets = (herm('h', 2), *jet_sections(2, n))

            def build_jets(h, s, s1, s2):
                return Spec(section_derivations(n, h, s, s1, s2), k, psi=psi_value(h, s))

            def fn_jets(h, s, s1, s2, z):
                return pick(make(X, Jet(k, z, s, s1, s2), h, z, None, 0), names)
            alt = Case(O + 'g_proj', f'n={n} k={k} from sections: ' + ' '.join(names), fn_jets, (*jets, Sym('z', (n,))),
                       nodes_post(names, jets, build_jets), scope=f'n={n} N=2', symbolic=n == 2 and len(names) == 1, gen=positive_h(2))
            C.run(Case(O + 'g_proj', f'n={n} k={k}: ' + ' '.join(names), fn, syms, nodes_post(names, syms, build),
                       scope=f'n={n}', abstract=True, alt=alt, gen=lambda rng: {'psi': 1 + rng.random()}))


def jac_nodes(C, names):
    """Gradient and embedding Jacobian."""
    for name, (mk, Q, npar) in varieties().items():
        activate()
        X = mk()
        n = len(Q.terms[0][2]) - 1
        par, tail = argpar(npar)
        zsym = Sym('z', (n,))
        basis = MonomialBasisFull(n, 1)
        for patch in range(n + 1):
            A = Q.affine(patch)
            for d in range(n):
                def build(z, p=()):
                    D = coordinate_derivations(z)
                    G = A.grad(z, p)
                    J = jac_of(G, d)
                    sp = Spec(D, 1, jac=J)
                    return {'grad_def': G, 'jac': J, 'jac_c': sp['jac_c'], 'jac_h': sp['jac_h'] if 'jac_h' in names else None}
                C.run(Case(O + 'jac', f'{name}: patch {patch} dependent {d}: ' + ' '.join(names),
                           lambda z, *p: pick(make(X, basis, jnp.eye(n + 1), z, *(p or tail), patch, d), names), (zsym,) + par,
                           nodes_post(names, (zsym,) + par, build), scope=name, pre=nonsing(A, npar)))


def jac_of(G, d):
    n = len(G)
    J = np.empty((n - 1, n), dtype=object)
    for r, i in enumerate(i for i in range(n) if i != d):
        for j in range(n):
            J[r, j] = -G[i] / G[d] if j == d else alg.ONE if i == j else alg.ZERO
    return J


def loc_syms(n, m):
    return (herm('g', n), Shaped('J', (m, n)), Shaped('gh', (n, n, n)), Shaped('Jh', (m, n, n)), herm4('gha', n, n))


LOC = ('g_proj', 'jac', 'g_proj_h', 'jac_h', 'g_proj_ha')


def loc_spec(n, g, J, gh, Jh, gha):
    D = Derivations(n)
    for c in range(n):
        for i in range(n):
            for j in range(n):
                D.set(c, g[i, j], gh[c, i, j])
                for d in range(n):
                    # dbar_d g_ij = conj(d_d g_ji)
                    D.set(c, gh[d, j, i].conjugate(), gha[c, d, i, j])
            for r in range(J.shape[0]):
                D.set(c, J[r, i], Jh[r, i, c])
    D.forbid(gh), D.forbid(Jh), D.forbid(gha)
    return Spec(D, 1, g_proj=g, jac=J)


def gen_any(pows, n, patch, positive=False):
    """A point, and a positive or indefinite matrix for which psi is well away from zero there."""
    def gen(rng):
        N = len(pows)
        A = rng.normal(size=(N, N)) + 1j * rng.normal(size=(N, N))
        z = rng.normal(size=n) + 1j * rng.normal(size=n)
        s = np.array(monomials(pows, np.array(insert_one(list(z), patch))), complex)
        if positive or rng.integers(2):
            return {'h': A @ A.conj().T + np.eye(N), 'z': z}
        while True:
            h = A @ np.diag(rng.choice([-1., 1.], size=N)) @ A.conj().T
            if np.abs(s @ h @ s.conj()) > .2 * np.linalg.norm(s) ** 2 * np.linalg.norm(h, 2):
                return {'h': h, 'z': z}
            A = rng.normal(size=(N, N)) + 1j * rng.normal(size=(N, N))
    return gen


def numeric_alt(C, function, label, names, n, k=2):
    """The same nodes on the code as a whole, at random points (bounded)."""
    name = {2: 'cubic, two parameters', 3: 'quartic', 4: 'Dwork(3)'}[n]
    mk, Q, npar = varieties()[name]
    activate()
    X = mk()
    basis = MonomialBasisFull(n, k)
    pows = rows(basis.power_matrix)
    h, z, par = herm('h', len(pows)), Sym('z', (n,)), Sym('par', (npar,))

    gen = gen_any(pows, n, 1, 'kahler' in names)
    return Case(function, label, lambda h, z, p: pick(make(X, basis, h, z, p, 1, n - 1), names), (h, z, par),
                lambda out, a, P: [P.eq(nm, got, want[nm]) for want in [oracle(Q, pows, k, *a, 1, n - 1)] for nm, got in zip(names, out)],
                gen=gen, symbolic=False, tries=8, scope=f'{name}, random points', tol=1e-5)


def loc_nodes(C, names):
    """Metric in local coordinates and its derivatives, from those of its two factors."""
    for n, m in ((2, 1), (3, 2)) + (((4, 3),) if names == ('g_loc',) else ()):
        activate()
        X = Fermat(n - 1)
        syms = loc_syms(n, m)

        def fn(*a):
            z = jnp.ones(n, complex)
            return pick(make(X, MonomialBasisFull(n, 1), jnp.eye(n + 1), z, None, 0, 0, over=tuple(zip(LOC, a))), names)
        lab = f'n={n}: ' + ' '.join(names)
        C.run(Case(O + 'g_loc', lab, fn, syms, nodes_post(names, syms, lambda *a: loc_spec(n, *a)), scope=f'n={n}', abstract=True,
                   alt=numeric_alt(C, O + 'g_loc', lab + ' (whole)', names, n)))


# ---------------------------------------------------------------- the public functions

def whole_spec(Q, pows, k, h, z, par, patch, d):
    D = coordinate_derivations(z)
    pt = np.empty(len(z) + 1, dtype=object)
    pt[:] = [x if isinstance(x, alg.Frac) else alg.ONE for x in insert_one(list(z), patch)]
    s = to_obj(monomials(pows, pt))
    J = jac_of(Q.affine(patch).grad(z, par), d) if d is not None else None
    return Spec(D, k, psi=psi_value(h, s), jac=J)


def whole(C):
    """Potential and metric from the coordinates on."""
    vs = varieties()
    todo = [('Fermat(1)', 1, True), ('Dwork(1)', 1, True), ('cubic, two parameters', 1, True), ('Fermat(1)', 2, False), ('quartic', 1, False)]
    for name, k, every in todo:
        mk, Q, npar = vs[name]
        activate()
        X = mk()
        n = len(Q.terms[0][2]) - 1
        basis = MonomialBasisFull(n, k)
        pows = rows(basis.power_matrix)
        N = len(pows)
        M = AlgebraicMetric(X, basis)
        # full Hermitian h for the small case, otherwise a sparse one with generic entries
        h = herm('h', N) if N <= 3 else Banded('h', N)
        zsym = Sym('z', (n,))
        par, tail = argpar(npar)
        for patch in range(n + 1) if every else (n,):
            def build(h, z, p=()):
                return whole_spec(Q, pows, k, h, z, p, patch, None)
            C.run(Case('AlgebraicMetric.kahler_potential', f'{name} degree {k}: patch {patch}',
                       lambda h, z, *p: (M.kahler_potential(h, z, *(p or tail), patch),), (h, zsym) + par,
                       nodes_post(('kahler',), (h, zsym) + par, build), scope=f'{name}, {N} sections', gen=positive_h(N)))
            for d in range(n) if every else (0,):
                def build_d(h, z, p=()):
                    return whole_spec(Q, pows, k, h, z, p, patch, d)

                def post(out, a, P, patch=patch, d=d, build_d=build_d):
                    nodes_post(('g_loc',), (h, zsym) + par, build_d)((out[0],), a, P)
                    P.eq('Hermitian', out[0], np.conj(np.asarray(out[0])).T)
                    P.same('patch', int(out[1]), patch)
                    P.same('dependent', int(out[2]), d)
                C.run(Case('AlgebraicMetric.metric', f'{name} degree {k}: patch {patch} dependent {d}',
                           lambda h, z, *p: M.metric(h, z, *(p or tail), patch, d), (h, zsym) + par, post,
                           scope=f'{name}, {N} sections', gen=positive_h(N), pre=nonsing(Q.affine(patch), npar)))


class Banded(Shaped):
    """Hermitian matrix with generic diagonal and first off-diagonal entries of the first rows."""

    def __init__(self, name, n):
        super().__init__(name, (n, n), herm(name, n).canon)

    def _keep(self, i):
        return i[0] == i[1] or set(i) in ({0, 1}, {self.shape[0] - 2, self.shape[0] - 1})

    def atoms(self):
        out = super().atoms()
        for i in np.ndindex(*self.shape):
            if not self._keep(i):
                out[i] = alg.ZERO
        return out

    def numeric(self, rng):
        out = super().numeric(rng)
        for i in np.ndindex(*self.shape):
            if not self._keep(i):
                out[i] = 0
        return out


def positive_h(N):
    def gen(rng):
        A = rng.normal(size=(N, N)) + 1j * rng.normal(size=(N, N))
        return {'h': A @ A.conj().T + np.eye(N)} if N <= 3 else {'h': np.diag(2 + rng.random(N)) + 0j}
    return gen


def positive_diagonal(N):
    return lambda rng: {'h': 0.5 + rng.random(N)}


def choices(C):
    """Reported patch and dependent coordinate, homogeneous input, given gradient."""
    from .c04 import is_best
    vs = varieties()
    for name in ('Fermat(1)', 'Dwork(1)'):
        mk, Q, npar = vs[name]
        activate()
        X = mk()
        n = len(Q.terms[0][2]) - 1
        basis = MonomialBasisFull(n, 1)
        M = AlgebraicMetric(X, basis)
        h, Z, par = herm('h', n + 1), Sym('Z', (n + 1,), nonzero=True), argpar(npar)
        par, tail = par

        def both(h, Z, *p):
            """Homogeneous input, and the affine coordinates in the patch it reports."""
            p = p or tail
            g, patch, dep = M.metric(h, Z, *p)
            z = jnp.delete(Z / Z[patch], patch, assume_unique_indices=True) if isinstance(patch, int) else without(Z / Z[patch], patch)
            g2, patch2, dep2 = M.metric(h, z, *p, patch)
            return (g, patch, dep), (g2, patch2, dep2), M.kahler_potential(h, Z, *p), M.kahler_potential(h, z, *p, patch), X.grad_defining(z, *p, patch)

        def post(out, a, P):
            (g, patch, dep), (g2, patch2, dep2), K, K2, G = out
            P.eq('metric', g, g2)
            P.eq('potential', K, K2)
            P.same('patch', int(patch2), int(patch))
            P.same('dependent', int(dep2), int(dep))
            is_best(P, 'patch of largest modulus', a[1], int(patch))
            is_best(P, 'dependent of largest gradient', G, int(dep))
        C.run(Case('AlgebraicMetric.metric', f'{name}: homogeneous coordinates', both, (h, Z) + par, post, gen=positive_h(n + 1),
                   scope=name, eager=True))

        def given(h, z, G, *p):
            return M.metric(h, z, *(p or tail), 1, grad_def=G)

        def post_g(out, a, P):
            h_, z, G = a[:3]
            d = int(out[2])
            syms = (h, Sym('z', (n,)), Sym('G', (n,)))

            def build(h, z, G):
                sp = whole_spec(Q, rows(basis.power_matrix), 1, h, z, None, 1, None)
                return Spec(sp.D, 1, psi=sp['psi'], jac=jac_of(G, d))
            nodes_post(('g_loc',), syms, build)((out[0],), a, P)
            is_best(P, 'dependent of largest gradient', G, d)
            P.same('patch', int(out[1]), 1)
        C.run(Case('AlgebraicMetric.metric', f'{name}: gradient given', given, (h, Sym('z', (n,)), Sym('G', (n,), nonzero=True)) + par, post_g,
                   gen=positive_h(n + 1), scope=name, eager=True))


def without(x, k):
    from cyjax.util import pop
    return pop(x, k)[1]


def batched(C):
    """Batch dimensions are mapped over."""
    activate()
    X = Fermat(1)
    M = AlgebraicMetric(X, MonomialBasisFull(2, 1))
    h, z = herm('h', 3), Sym('z', (2, 2))
    pat = np.array([0, 2])

    def post(out, a, P):
        (g, p, d), one = out
        for i in range(2):
            P.eq(f'metric of point {i}', g[i], one[i][0])
            P.same(f'patch of point {i}', int(p[i]), int(pat[i]))
            P.same(f'dependent of point {i}', int(d[i]), 1)
    C.run(Case('AlgebraicMetric.metric', 'batch of points', lambda h, z: (M.metric(h, z, None, pat, 1), [M.metric(h, z[i], None, int(pat[i]), 1) for i in range(2)]),
               (h, z), post, gen=positive_h(3), scope='Fermat(1)'))


def run(C):
    C.total = False
    anygeom.jets(C, ['s', 's_1', 's_c', 's_1_c'])
    anygeom.psi(C, ['', 'a', 'c', 'ac'])
    anygeom.g_proj(C, ['g_proj'])
    anygeom.embedding(C, ['jac', 'jac_c'])
    anygeom.g_loc(C, ['g_loc'])
    anygeom.metric(C)
    section_nodes(C, ('s', 's_1', 's_c', 's_1_c'))
    psi_nodes(C, ('psi', 'psi_h', 'psi_a', 'psi_ha', 'kahler'))
    g_proj_nodes(C, ('g_proj',))
    jac_nodes(C, ('grad_def', 'jac', 'jac_c'))
    loc_nodes(C, ('g_loc',))
    whole(C)
    choices(C)
    batched(C)
    for n in (2, 3, 4):
        C.run(numeric_alt(C, 'GeometricObjects', f'whole object at random points, n={n}', ('s', 's_1', 'psi', 'psi_h', 'psi_a', 'psi_ha', 'kahler', 'g_proj', 'grad_def', 'jac', 'g_loc'), n))
