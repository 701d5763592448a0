"""One step of Donaldson's algorithm."""
import jax
import jax.numpy as jnp
import numpy as np

from cyjax import VarietySingle
from cyjax.donaldson import AlgebraicMetric, LBSections, MonomialBasisFull
from cjv import alg
from cjv.core import Case
from cjv.extract import Sym, activate, inv
from cjv.interp import to_obj, Special
from . import c10, c11, sizes
from .c09 import argpar
from .c10 import ratio, total
from .c12 import rows, monomials, insert_one
from .c16 import observed, points
from .common import varieties
from .geom import Shaped, herm

F = 'AlgebraicMetric.donaldson_step'


class First(LBSections):
    """The first N of: affine coordinates, their product, one."""

    def __init__(self, N):
        super().__init__(1)
        self.N = N

    @property
    def size(self):
        return self.N

    @staticmethod
    def values(z):
        return [z[0], z[1], z[0] * z[1], 1 + 0 * z[0]]

    def __call__(self, zs, patch, conj=False, **kwargs):
        from jax_autovmap import auto_vmap
        return auto_vmap(zs=1)(lambda zs: jnp.stack(self.values(zs)[:self.N]))(zs)


def broken(X, bad):
    """X with non-finite weights for some samples."""
    class Broken(type(X)):
        def __init__(self):
            self.__dict__.update(X.__dict__)

        def sample_intersect(self, key, params, count, affine=False, weights=False):
            out = X.sample_intersect(key, params, count, affine, weights)
            if not weights:
                return out
            pts, w = out
            return pts, jnp.stack([jnp.asarray(bad[k], w.dtype) if k in bad else w[k] for k in range(count)])
    return Broken()


ONE = alg.Frac.const(1)


def spec_T(P, s, w, h, vol):
    """N/vol mean of w s s^dagger / (s^T H conj(s))"""
    N = len(h)
    n = len(s)
    T = np.empty((N, N), dtype=object if P.symbolic else complex)
    H = (h + np.conj(h).T) / 2
    den = [total(x[a] * H[a, b] * np.conj(x[b]) for a in range(N) for b in range(N)) for x in s]
    for a in range(N):
        for b in range(N):
            T[a, b] = total(w[k] * s[k][a] * np.conj(s[k][b]) / den[k] for k in range(n)) * N / vol / n
    return T


def samples(P, log, batches, size, n, Q, p, bad):
    """Points, patches and weights that were drawn."""
    if P.symbolic:
        used = [x for x in P.ctx.notes if x[0] == 'points']
        keys = [str(x[1]) for x in used]
        P.same('sizes of the batches', [x[2] for x in used], [size] * batches)
        zs = [z for x in used for z in points(x[1], p, size, n)]
        patch = [k % n for _ in used for k in range(size)]
        w = [c10.alg_fn(z, p, q, 1.)[()] for z, q in zip(zs, patch)]
        zero = alg.ZERO
    else:
        jax.effects_barrier()
        keys = [x[0] for x in log]
        P.same('sizes of the batches', [len(x[1]) for x in log], [size] * batches)
        zs = [z for x in log for z in x[1]]
        patch = [int(q) for x in log for q in x[2]]
        w = [ratio(P, z, Q.affine(q).grad(z, p)) for z, q in zip(zs, patch)]
        zero = 0.0
    P.same('every batch has its own key', len(set(keys)), batches)
    w = [zero if i % size in bad else x for i, x in enumerate(w)]
    return zs, patch, w


def case(name, N, batches, size, bad=(), hermitian=False, real=False, monomial=False, numbers=False):
    mk, Q, npar = varieties()[name]
    n = len(Q.terms[0][2])
    activate()
    log = []
    X = observed(mk(), n, log)
    bad = dict(bad)
    if bad:
        X = broken(X, bad)
    basis = MonomialBasisFull(n - 1, 1) if monomial else First(N)
    pows = rows(basis.power_matrix) if monomial else None
    M = AlgebraicMetric(X, basis)
    par, tail = argpar(npar)
    key = Sym('key', (2,), kind='k')
    h = Sym('h', (N, N), kind='r') if real else herm('h', N) if hermitian else Shaped('h', (N, N))
    vol = Sym('vol', (), kind='r', sign='+')

    def fn(key, h, vol, *p):
        jax.effects_barrier()
        log.clear()
        return M.donaldson_step(key, h, *(p or tail), vol, batches, size)

    def post(out, a, P):
        _, h, vol = a[:3]
        p = a[3] if npar else np.zeros(0)
        vol = to_obj(vol)[()] if P.symbolic else float(vol)
        zs, patch, w = samples(P, log, batches, size, n, Q, p, bad)
        if monomial:
            s = [list(monomials(pows, np.array(insert_one(list(z), q), dtype=z.dtype))) for z, q in zip(zs, patch)]
        else:
            s = [First.values(z)[:N] for z in zs]
        T = spec_T(P, s, w, h, vol)
        out = np.asarray(out)
        P.same('shape', out.shape, (N, N))
        made = [x for x in P.ctx.notes if x[0] == 'inverse'] if P.symbolic else []
        if made:
            # the inverse is known by its contract only
            (_, m, r), = made
            m, r, k = orient(m, r, T, [ONE, vol / N, vol / N * (batches * size), ONE * (batches * size), vol / N * batches, ONE * batches])
            P.eq('inverted matrix', m, T * k)
            P.eq('result', out, r.T * k)
            P.eq('inverted matrix Hermitian', m, np.conj(m).T)
        else:
            P.eq('result', out, inv(T).T)
            P.eq('Hermitian', out, np.conj(out).T)

    def gen(rng):
        A = rng.normal(size=(N, N)) + 1j * rng.normal(size=(N, N))
        H = A @ A.conj().T + np.eye(N)
        if real:
            return {'h': H.real + A.real - A.real.T, 'vol': 10 ** rng.uniform(-4, 4)}
        return {'h': H if hermitian else H + A - A.conj().T, 'vol': 10 ** rng.uniform(-4, 4)}
    extra = (*c10.GRAD, (VarietySingle, 'sample_intersect_weights', c10.stub_weights))
    rules = {'inv': by_contract} if N > 2 or batches * size > 2 else None
    lab = f'{name}: {N} sections, {batches} batches of {size}' + (', monomials' if monomial else '') + \
          (', non-finite weights' if bad else '') + (', Hermitian' if hermitian else '') + (', real' if real else '')
    return Case(F, lab, fn, (key, h, vol) + par, post, extra=extra, abstract=True, gen=gen, scope=f'{name}, N={N}', tries=6, rules=rules, tol=1e-5,
                symbolic=not numbers)


def orient(m, r, T, factors):
    """m, r transposed if need be, and k such that m = k T can hold: T^-1 = k r then."""
    if m.shape == T.shape:
        for k in factors:
            if not (m[0, 0] - k * T[0, 0]).is_zero():
                continue
            if len(T) > 1 and not (m[0, 1] - k * T[0, 1]).is_zero() and (m[0, 1] - k * T[1, 0]).is_zero():
                return m.T, r.T, k
            return m, r, k
    return m, r, ONE


def by_contract(it, args, static):
    """inv(m): some matrix r determined by m; a symmetric one for symmetric m."""
    m = to_obj(args[0])
    n = m.shape[-1]
    symmetric = all((m[i, j] - m[j, i]).is_zero() for i in range(n) for j in range(i))
    r = np.empty((n, n), dtype=object)
    for i in range(n):
        for j in range(n):
            at = sorted((i, j)) if symmetric else (i, j)
            r[i, j] = alg.Frac.atom(alg.SPACE.fn('inverse', (*at, *m.reshape(-1))))
    it.ctx.notes.append(('inverse', m, r))
    return [r]


def run(C):
    sizes.donaldson(C)
    for name in ('Fermat(1)', 'Dwork(1)', 'Dwork(2)'):
        for N, batches, size in ((1, 1, 1), (1, 2, 1), (1, 2, 3), (1, 3, 2), (2, 1, 2), (2, 2, 1), (2, 1, 3), (2, 2, 2), (2, 3, 1)):
            C.run(case(name, N, batches, size))
        C.run(case(name, 2, 2, 2, hermitian=True))
        C.run(case(name, 2, 5, 4, numbers=True))
        C.run(case(name, 2, 7, 20, numbers=True))
        C.run(case(name, 2, 2, 1, real=True))
        C.run(case(name, 1, 1, 3, bad={1: np.nan}))
        C.run(case(name, 1, 2, 3, bad={0: np.inf, 2: -np.inf}))
        C.run(case(name, 2, 1, 4, bad={0: np.nan, 3: np.inf}))
        for N, batches, size in ((3, 1, 3), (3, 3, 1)):
            C.run(case(name, N, batches, size))
            C.run(case(name, N, batches, size, hermitian=True))
    C.run(case('Fermat(1)', 3, 2, 2, hermitian=True))
    if C.thorough:
        C.run(case('Fermat(1)', 3, 2, 2))
    C.run(case('Fermat(1)', 3, 2, 2, hermitian=True, monomial=True))
