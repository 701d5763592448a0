"""Hermitian matrices from Cholesky parameters."""
import jax.numpy as jnp
import numpy as np

from cyjax import ml
from cjv.core import Case
from cjv.extract import Sym, activate, det, opaque, opaque_call
from cjv.interp import to_obj
from .c10 import total, cc

MAXN = 8
ORIG = ml.cholesky_decode


def triangular(diag, upper):
    """M with the given diagonal and upper triangle, row by row."""
    n = len(diag)
    obj = np.asarray(diag).dtype == object or np.asarray(upper).dtype == object
    M = to_obj(np.zeros((n, n))) if obj else np.zeros((n, n), complex)
    it = iter(upper)
    for i in range(n):
        M[i, i] = diag[i]
        for j in range(i + 1, n):
            M[i, j] = next(it)
    return M


def product(M):
    n = len(M)
    out = np.empty((n, n), dtype=M.dtype)
    for i in range(n):
        for j in range(n):
            out[i, j] = total(M[i, k] * np.conj(M[j, k]) for k in range(max(i, j), n))
    return out


def flat(par, n):
    """diagonal, real parts, imaginary parts"""
    m = n * (n - 1) // 2
    one = np.asarray(par).dtype == object
    from cjv import alg
    i = alg.I if one else 1j
    return par[:n], np.array([par[n + k] + i * par[n + m + k] for k in range(m)], dtype=object if one else complex)


@opaque('c_cholesky')
def _r_cholesky(it, args, static):
    return [product(triangular(to_obj(args[0]), to_obj(args[1])))]


def stub(diag, upper):
    n = diag.shape[0]
    if not 1 <= n <= MAXN or diag.ndim != 1 or upper.shape != (n * (n - 1) // 2,):
        return ORIG(diag, upper)
    return opaque_call('c_cholesky', [((n, n), upper.dtype)], diag, upper)[0]


def decode_cases(sizes):
    for n in sizes:
        m = n * (n - 1) // 2
        for kind in ('c', 'r'):
            def post(out, a, P):
                d, u, x = a
                out = np.asarray(out)
                M = triangular(d, u)
                P.eq('M M^dagger', out, product(M))
                P.eq('Hermitian', out, np.conj(out).T)
                # x^dagger R x is a sum of squared moduli
                if n <= 5:
                    P.eq('quadratic form', total(np.conj(x[i]) * out[i, j] * x[j] for i in range(n) for j in range(n)),
                         total(cc(total(np.conj(M[i, k]) * x[i] for i in range(k + 1))) for k in range(n)))
                if n <= 3:
                    v = det(to_obj(out))[()] if P.symbolic else np.linalg.det(out)
                    w = 1
                    for t in d:
                        w = w * t * t
                    P.eq('determinant', v, w)
            yield Case('cyjax.ml.cholesky_decode', f'size {n}, {"complex" if kind == "c" else "real"} upper entries',
                       lambda d, u, x: ORIG(d, u), (Sym('d', (n,), kind='r'), Sym('u', (m,), kind=kind), Sym('x', (n,))), post,
                       scope=f'size {n}')


def param_cases(sizes, rep):
    for n in sizes:
        def post(out, a, P):
            d, u = flat(a[0], n)
            out = np.asarray(out)
            P.eq('M M^dagger', out, product(triangular(d, u)))
            P.eq('Hermitian', out, np.conj(out).T)
        yield Case('cyjax.ml.cholesky_from_param', f'size {n}', ml.cholesky_from_param, (Sym('p', (n * n,), kind='r'),), post,
                   scope=f'size {n}', replace=rep if n <= MAXN else ())


def diagonal_post(n, identity):
    def post(out, a, P):
        par, h = out
        P.same('number of parameters', par.shape, (n * n,))
        P.eq('off-diagonal entries', h[~np.eye(n, dtype=bool)], np.zeros(n * n - n))
        P.eq('diagonal entries', np.array([h[i, i] for i in range(n)]), np.array([par[i] * par[i] for i in range(n)]))
        if identity:
            P.eq('identity', h, np.eye(n))
    return post


def init_cases(sizes, rep):
    key = Sym('key', (2,), kind='k')
    for n in sizes:
        def both(par):
            return par, ml.cholesky_from_param(par)
        f = 'cyjax.ml.hermitian_param_init'
        kw = dict(scope=f'size {n}', replace=rep if n <= MAXN else ())
        yield Case(f, f'size {n}', lambda k: both(ml.hermitian_param_init(k, n)), (key,), diagonal_post(n, True), **kw)
        yield Case(f, f'size {n}, no fluctuation', lambda k: both(ml.hermitian_param_init(k, n, 0.)), (key,), diagonal_post(n, True), **kw)
        yield Case(f, f'size {n}, fluctuation', lambda k, t: both(ml.hermitian_param_init(k, n, t)),
                   (key, Sym('t', (), kind='r')), diagonal_post(n, False), **kw)


def lemma(C):
    """The contract of cholesky_decode, for callers."""
    if C.replay is not None:
        return ((ORIG, stub),)
    ok = True
    for c in decode_cases(range(1, MAXN + 1)):
        ok = C.run_lemma(c) and ok
    return ((ORIG, stub),) if ok else ()


def run(C):
    activate()
    for c in decode_cases([*range(1, 9), 11] + ([14] if C.thorough else [])):
        C.run(c)
    rep = lemma(C)
    sizes = [*range(1, 9), 11] + ([15] if C.thorough else [])
    for c in param_cases(sizes, rep):
        C.run(c)
    for c in init_cases(sizes, rep):
        C.run(c)
    # larger sizes on numbers
    for cases in (decode_cases, lambda s: param_cases(s, ()), lambda s: init_cases(s, ())):
        for c in cases([13, 17, 24, 35]):
            c.symbolic, c.tries = False, 2
            C.run(c)
