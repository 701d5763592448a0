"""The eta ratio and the sigma measure."""
import jax
import jax.numpy as jnp
import numpy as np

from cyjax import Fermat, VarietySingle, change_chart
from cyjax.donaldson import AlgebraicMetric, MonomialBasisFull
from cjv import alg
from cjv.core import Case
from cjv.extract import Sym, activate, opaque, opaque_call, key_term, det
from cjv.interp import to_obj
from . import anygeom, c10, c11, sizes
from .c09 import argpar
from .c10 import nonsing, on_variety, cc, total, ratio
from .c12 import rows, monomials, insert_one
from .c14 import numeric_alt, jac_of, gen_any
from .c15 import gen_h, positive_g, Sparse
from .common import varieties
from .geom import Shaped, herm, scalar, make, pick, oracle, nodes_post, evaluate, each

O = 'GeometricObjects.eta'


def minor_det(m):
    return to_obj(det(to_obj(m)))[()]


def bordered(g, G):
    """-det [[g, G], [conj(G), 0]]"""
    n = len(G)
    m = np.empty((n + 1, n + 1), dtype=object)
    m[:n, :n] = g
    m[:n, n] = G
    for j in range(n):
        m[n, j] = G[j].conjugate()
    m[n, n] = alg.ZERO
    return -minor_det(m)


def node(C):
    """eta from the metric in local coordinates and the gradient."""
    for n, m in ((2, 1), (3, 2), (4, 3)):
        for d in range(n):
            activate()
            X = Fermat(n - 1)
            syms = (herm('g', m), Shaped('G', (n,)))

            def fn(g, G):
                return pick(make(X, MonomialBasisFull(n, 1), jnp.eye(n + 1), jnp.ones(n, complex), None, 0, d, G, over=(('g_loc', g),)), ('eta',))

            lab = f'n={n} dependent {d}'
            C.run(Case(O, lab, fn, syms, nodes_post(('eta',), syms, lambda g, G: {'eta': minor_det(g) * G[d] * G[d].conjugate()}), scope=f'n={n}',
                       abstract=True, gen=positive_g(m), alt=numeric_alt(C, O, f'n={n} (whole)', ('eta',), n)))


def dependent(C):
    """The same value for every dependent coordinate: the bordered determinant of the ambient metric."""
    for n in (2, 3, 4):
        for d in range(n):
            activate()
            X = Fermat(n - 1)
            syms = (herm('g', n), Shaped('G', (n,)))

            def fn(g, G):
                return pick(make(X, MonomialBasisFull(n, 1), jnp.eye(n + 1), jnp.ones(n, complex), None, 0, d, G, over=(('g_proj', g),)), ('eta',))
            C.run(Case(O, f'n={n} dependent {d}: closed form', fn, syms, nodes_post(('eta',), syms, lambda g, G: {'eta': bordered(g, G)}), scope=f'n={n}',
                       abstract=True, gen=positive_g(n), alt=whole_dependent(C, n)))


def whole_dependent(C, n, k=2):
    """Values for all dependent coordinates agree, on the code as a whole (bounded)."""
    name = {2: 'cubic, two parameters', 3: 'quartic', 4: 'Dwork(3)'}[n]
    mk, Q, npar = varieties()[name]
    activate()
    X = mk()
    basis = MonomialBasisFull(n, k)
    M = AlgebraicMetric(X, basis)
    N = basis.size

    def fn(h, z, p):
        return [M.eta(h, z, p, 1, d) for d in range(n)] + [M.eta(h, z, p, 1)]

    def post(out, a, P):
        want = oracle(Q, rows(basis.power_matrix), k, *a, 1, 0)['eta']
        for d, v in enumerate(out):
            P.eq(f'eta, dependent {d}' if d < n else 'eta', v, want)
    return Case('AlgebraicMetric.eta', f'{name}: all dependent coordinates, random points', fn, (herm('h', N), Sym('z', (n,)), Sym('par', (npar,))), post,
                gen=gen_any(rows(basis.power_matrix), n, 1), symbolic=False, tries=8, tol=1e-5, pre=nonsing(Q.affine(1), npar))


def homogeneous_jets(k, p, z, psi, psi_h, psi_ha, G):
    """psi_{I Jbar} and G_I in homogeneous coordinates with Z_p = 1, by Euler's relation for
    psi (degree k in Z and in its conjugate) and for the defining polynomial on the variety."""
    n = len(z)
    idx = [i for i in range(n + 1) if i != p]
    M = np.empty((n + 1, n + 1), dtype=object)
    H = np.empty(n + 1, dtype=object)
    for a, i in enumerate(idx):
        H[i] = G[a]
        for b, j in enumerate(idx):
            M[i, j] = psi_ha[a, b]
        M[p, i] = psi_h[a].conjugate() * k - total(z[c] * psi_ha[c, a] for c in range(n))
        M[i, p] = M[p, i].conjugate()
    psi_p = psi * k - total(z[c] * psi_h[c] for c in range(n))
    # sum_J conj(Z_J) psi_{pJ} = k psi_p
    M[p, p] = psi_p * k - total(z[c].conjugate() * M[p, i] for c, i in enumerate(idx))
    H[p] = -total(z[c] * G[c] for c in range(n))
    return M, H


def patches(C):
    """The value is (k^-2 / (pi k)^m) bordered(psi_IJ, G_I) / psi^n in homogeneous coordinates, the
    same expression in every patch, and homogeneous of degree zero for Calabi-Yau varieties."""
    for n in (2, 3, 4):
        for p in range(n + 1):
            for k in (1, 2):
                activate()
                X = Fermat(n - 1)
                syms = (scalar('psi'), Shaped('psi_h', (n,)), herm('psi_ha', n), Shaped('G', (n,)), Sym('z', (n,)))

                def fn(psi, psi_h, psi_ha, G, z):
                    return pick(make(X, MonomialBasisFull(n, k), jnp.eye(MonomialBasisFull(n, k).size), z, None, p, 0, G,
                                     over=(('psi', psi), ('psi_h', psi_h), ('psi_ha', psi_ha))), ('eta',))

                def build(psi, psi_h, psi_ha, G, z):
                    M, H = homogeneous_jets(k, p, z, psi[()], psi_h, psi_ha, G)
                    return {'eta': bordered(M, H) / (psi[()] ** n * k ** 2 * (alg.pi() * k) ** (n - 1))}
                C.run(Case(O, f'n={n} degree {k} patch {p}: homogeneous form', fn, syms, nodes_post(('eta',), syms, build), scope=f'n={n}',
                           abstract=True, alt=direct_case(C, f'Dwork({n - 1})', 0, 1, False)))
    for n in (2, 3):
        def both(k, deg):
            alg.reset()
            M, G = herm('M', n + 1).atoms(), Shaped('G', (n + 1,)).atoms()
            psi = scalar('psi').atoms()[()]
            t = alg.Frac.atom(alg.SPACE.cplx('t'))
            tt = t * t.conjugate()
            v = bordered(M, G) / psi ** n
            w = bordered(each(lambda x: x * tt ** (k - 1), M), each(lambda x: x * t ** (deg - 1), G)) / (psi * tt ** k) ** n
            return v, w
        v, w = both(2, n + 1)
        C.record('specification of eta', f'n={n}: homogeneous of degree zero for defining degree {n + 1}', True if (v - w).is_zero() else None, 'normal-form')


def direct_case(C, name, p, q, generic):
    mk, Q, npar = varieties()[name]
    n = len(Q.terms[0][2])
    activate()
    X = mk()
    basis = MonomialBasisFull(n - 1, 1 if n == 3 else 2)
    M = AlgebraicMetric(X, basis)
    par, tail = argpar(npar)
    z, gen = on_variety(Q.affine(p), npar, n - 2)
    h = Sparse('h', basis.size, generic)

    def fn(h, z, *pp):
        pp = pp or tail
        return (M.eta(h, z, *pp, p, 0), M.eta(h, change_chart(z, p, q), *pp, q, n - 2))

    def gen2(rng):
        return {**gen(rng), **gen_h(basis.size)(rng)}
    return Case('AlgebraicMetric.eta', f'{name}: point in patches {p} and {q}', fn, (h, z) + par, lambda out, a, P: P.eq('other patch', out[1], out[0]),
                gen=gen2, symbolic=n == 3, tries=8, scope=name, tol=1e-5)


def direct(C):
    """On the code as a whole, at a point of the variety."""
    for name in ('Fermat(1)', 'Fermat(2)', 'Dwork(2)', 'Dwork(3)'):
        n = {'1': 3, '2': 4, '3': 5}[name[-2]]
        for p, q in ((0, 1), (n - 1, 0)):
            C.run(direct_case(C, name, p, q, True))


# ---------------------------------------------------------------- sigma

@opaque('c_points')
def _r_points(it, args, static):
    key, par = args
    n, count = static['n'], static['count']
    t = key_term(key)
    it.ctx.notes.append(('points', t, count, [x.key() for x in to_obj(par).reshape(-1)]))
    return [points(t, par, count, n), np.array([k % n for k in range(count)])]


def points(t, par, count, n):
    z = np.empty((count, n - 1), dtype=object)
    for k in range(count):
        for i in range(n - 1):
            z[k, i] = alg.Frac.atom(alg.SPACE.fn('point', (str(t), count, k, i, *to_obj(par).reshape(-1))))
    return z


def observed(X, n, log):
    """X with its sampling observed (numbers) or replaced by its contract (extraction)."""
    class Observed(type(X)):
        def __init__(self):
            self.__dict__.update(X.__dict__)

        def sample_intersect(self, key, params, count, affine=False, weights=False):
            if c11.extracting():
                if not affine:
                    raise alg.Unsupported('homogeneous sample')
                pp = jnp.zeros((0,)) if params is None else params
                z, patch = opaque_call('c_points', [((count, n - 1), np.complex128), ((count,), np.int64)], key, pp, n=n, count=count)
                return ((z, patch), self.sample_intersect_weights(z, params, patch)) if weights else (z, patch)
            out = X.sample_intersect(key, params, count, affine, weights)
            z = out[0] if weights else out
            if affine:
                jax.debug.callback(lambda k, *a: log.append((tuple(np.asarray(k).tolist()), *map(np.asarray, a))), key, *z)
            return out
    return Observed()


@opaque('c_eta')
def _r_eta(it, args, static):
    h, z, par, patch, G = args
    if np.size(G) and any(not (g - w).is_zero() for g, w in zip(to_obj(G), c10.grad_atoms(z, par, patch))):
        raise alg.Unsupported('a given gradient other than that of the defining polynomial')
    return [eta_atom(h, z, par, patch)]


def eta_atom(h, z, par, patch):
    out = np.empty((), dtype=object)
    out[()] = alg.Frac.atom(alg.SPACE.fn('eta', (*to_obj(h).reshape(-1), *to_obj(z), *to_obj(np.asarray(par)).reshape(-1), int(patch)), real=True))
    return out


def stub_eta(self, h, zs, params, patch=None, dependent=None, grad_def=None):
    """Contract of eta: a real function of h, the point and the parameters only."""
    from jax_autovmap import auto_vmap
    if patch is None:
        raise alg.Unsupported('homogeneous coordinates')

    @auto_vmap(h=2, zs=1, params=1, patch=0, grad_def=1)
    def f(h, zs, params, patch, grad_def):
        pp = jnp.zeros((0,)) if params is None else params
        G = jnp.zeros((0,)) if grad_def is None else grad_def
        return opaque_call('c_eta', [((), np.complex128)], h, zs, pp, patch, G)[0]
    return f(h, zs, params, patch, grad_def)


def gen_sigma(N):
    def gen(rng):
        A = rng.normal(size=(N, N)) + 1j * rng.normal(size=(N, N))
        D = rng.choice([-1., 1.], size=N) if rng.integers(2) else np.ones(N)
        return {'h': A @ np.diag(D) @ A.conj().T + np.eye(N) * np.all(D > 0)}
    return gen


def well_posed(pows, h, z, patch, eta, w):
    s = [np.array(monomials(pows, np.array(insert_one(list(x), int(p)))), complex) for x, p in zip(z, patch)]
    psi = min(np.abs(v @ h @ v.conj()) / np.linalg.norm(v) ** 2 for v in s) / np.linalg.norm(h, 2)
    return psi > .05 and abs(np.dot(eta, w)) > .05 * np.dot(np.abs(eta), w)


def sigma(C):
    vs = varieties()
    for name in ('Fermat(1)', 'Dwork(1)', 'Dwork(2)'):
        mk, Q, npar = vs[name]
        n = len(Q.terms[0][2])
        activate()
        log = []
        X = observed(mk(), n, log)
        basis = MonomialBasisFull(n - 1, 1)
        M = AlgebraicMetric(X, basis)
        pows = rows(basis.power_matrix)
        par, tail = argpar(npar)
        key, h = Sym('key', (2,), kind='k'), herm('h', n)
        extra = (*c10.GRAD, (VarietySingle, 'sample_intersect_weights', c10.stub_weights), (AlgebraicMetric, 'eta', stub_eta))
        for count in (1, 2, 3):
            def fn(key, h, *p):
                jax.effects_barrier()
                log.clear()
                return M.sigma_accuracy(key, *(p or tail), h, count)

            def post(out, a, P):
                key, h = a[:2]
                p = a[2] if npar else np.zeros(0)
                if P.symbolic:
                    used = [x for x in P.ctx.notes if x[0] == 'points']
                    P.same('one sample of the requested size', [x[2] for x in used], [count])
                    z = points(used[0][1], p, count, n)
                    patch = [k % n for k in range(count)]
                    w = [c10.alg_fn(z[k], p, patch[k], 1.)[()] for k in range(count)]
                    eta = [eta_atom(h, z[k], p, patch[k])[()] for k in range(count)]
                else:
                    jax.effects_barrier()
                    P.same('one sample of the requested size', [len(x[1]) for x in log], [count])
                    (_, z, patch), = log
                    w = [ratio(P, z[k], Q.affine(int(patch[k])).grad(z[k], p)) for k in range(count)]
                    eta = [oracle(Q, pows, 1, h, z[k], p, int(patch[k]), 0)['eta'] for k in range(count)]
                    if not well_posed(pows, h, z, patch, eta, w):
                        return
                v_cy = total(w) / count
                v_k = total(e * x for e, x in zip(eta, w)) / count
                P.eq('sigma', out, total(abs(1 - e * v_cy / v_k) * x for e, x in zip(eta, w)) / count / v_cy)
            C.run(Case('AlgebraicMetric.sigma_accuracy', f'{name}: {count} points', fn, (key, h) + par, post, extra=extra, abstract=True,
                       gen=gen_sigma(n), scope=f'{name}, {count} points', tol=1e-5, tries=12))


def sigma_batched(C):
    """One value for each parameter vector and each matrix, those of single calls."""
    mk, Q, npar = varieties()['Dwork(1)']
    n = len(Q.terms[0][2])
    M = AlgebraicMetric(mk(), MonomialBasisFull(n - 1, 1))
    single = gen_sigma(n)

    def gen(rng):
        a, b = single(rng)['h'], single(rng)['h']
        return {'h': a, 'hs': np.stack([a, b])}
    for what in ('parameters', 'matrices', 'both'):
        def fn(key, h, hs, p, ps, what=what):
            return M.sigma_accuracy(key, p if what == 'matrices' else ps, h if what == 'parameters' else hs, 20)

        def post(out, a, P, what=what):
            key, h, hs, p, ps = a
            P.same('shape', np.shape(out), (2,))
            for i in range(2):
                P.eq(f'entry {i}', np.asarray(out)[i], M.sigma_accuracy(key, p if what == 'matrices' else ps[i], h if what == 'parameters' else hs[i], 20))
        C.run(Case('AlgebraicMetric.sigma_accuracy', f'many {what}', fn,
                   (Sym('key', (2,), kind='k'), Sym('h', (n, n)), Sym('hs', (2, n, n)), Sym('p', (npar,)), Sym('ps', (2, npar))), post,
                   gen=gen, symbolic=False, tries=3, tol=1e-5))


def run(C):
    C.total = False
    sizes.sigma(C)
    anygeom.eta(C)
    node(C)
    dependent(C)
    patches(C)
    for n in (2, 3, 4):
        C.run(whole_dependent(C, n))
    direct(C)
    sigma(C)
    sigma_batched(C)
