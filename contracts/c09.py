"""Points on the variety: intersection sampling and solving for a coordinate."""
import numpy as np

from cyjax import VarietySingle, HomPoly
from cjv.core import Case
from cjv.extract import Sym, activate
from .common import varieties, renamed, QUADRIC


def all_varieties():
    # another name, indices not consecutive
    v = {'quadric in x1, x3, x4': (lambda: VarietySingle(HomPoly.from_sympy(renamed(QUADRIC[0]), ['x'])), QUADRIC[1], 1)}
    v.update(varieties())
    v['quadric'] = (lambda: VarietySingle(HomPoly.from_sympy(QUADRIC[0], ['z'])), QUADRIC[1], 1)
    return v


def distinct(P, name, vals):
    """The values are different roots (as many as the degree)."""
    if P.symbolic:
        ok = all(not (vals[i] - vals[j]).is_zero() for i in range(len(vals)) for j in range(i))
        P.true(name, ok, 'the same root twice', 'normal-form')
    else:
        ok = all(abs(vals[i] - vals[j]) > 1e-9 for i in range(len(vals)) for j in range(i))
        P.true(name, ok, f'the same root twice: {vals}')


def degree_in(Q, i):
    return max(p[i] for _, _, p in Q.terms)


def argpar(npar, shape=()):
    return ((Sym('par', (*shape, npar)),), ()) if npar else ((), (None,))


def check_point(P, name, Q, pt, par, scale=1):
    v = Q(pt, par)
    P.eq(name, v, 0 * v)


def run(C):
    C.total = False
    for name, (make, Q, npar) in all_varieties().items():
        activate()
        X = make()
        solve(C, name, X, Q, npar)
        intersect(C, name, X, Q, npar)
    # parameters with names the implementation may be using itself
    for p in ('p', 'q', 't', 'pp', 'x'):
        activate()
        X = VarietySingle(HomPoly.from_sympy(QUADRIC[0].replace('c', p), ['z']))
        intersect(C, f'quadric with parameter {p}', X, QUADRIC[1], 1)
    counts(C)


def solve(C, name, X, Q, npar):
    n = len(Q.terms[0][2])
    par, tail = argpar(npar)
    F = 'VarietySingle.solve_defining'
    big = n > 4
    for patch in [None, *range(n)]:
        A = Q if patch is None else Q.affine(patch)
        m = n if patch is None else n - 1
        for dep in range(m):
            if big and not C.thorough and patch is not None and (patch + dep) % 3:
                continue
            d = degree_in(A, dep)

            def post(out, a, P):
                p = a[1] if npar else ()
                P.same('shape', out.shape, (d, m))
                for k in range(d):
                    check_point(P, f'equation[{k}]', A, out[k], p)
                    P.eq(f'given[{k}]', np.delete(out[k], dep), a[0])
                distinct(P, 'roots', [out[k][dep] for k in range(d)])
            C.run(Case(F, f'{name}: patch {patch} dependent {dep}',
                       lambda z, *p: X.solve_defining(z, *(p or tail), dep, patch),
                       (Sym('z', (m - 1,), nonzero=True),) + par, post, scope=f'{name}'))
    # batch of points and of parameters
    A = Q.affine(n - 1)
    d = degree_in(A, 0)
    pb, tail = argpar(npar, (2,))

    def post_b(out, a, P):
        P.same('shape', out.shape, (2, d, n - 1))
        for b in range(2):
            for k in range(d):
                check_point(P, f'equation[{b},{k}]', A, out[b][k], a[1][b] if npar else ())
                P.eq(f'given[{b},{k}]', np.delete(out[b][k], 0), a[0][b])
    C.run(Case(F, f'{name}: batch', lambda z, *p: X.solve_defining(z, *(p or tail), 0, n - 1),
               (Sym('z', (2, n - 2), nonzero=True),) + pb, post_b, scope=f'{name}'))


def intersect(C, name, X, Q, npar):
    n = len(Q.terms[0][2])
    deg = sum(Q.terms[0][2])
    par, tail = argpar(npar)
    F = 'VarietySingle.sample_intersect'
    rep = C.uses('complex_sphere', 'pop')
    key = Sym('key', (2,), kind='k')
    for count in sorted({1, 2, deg, deg + 1, 2 * deg + 1} if n < 5 or C.thorough else {1, deg + 1}):
        def post(out, a, P):
            P.same('shape', out.shape, (count, n))
            for k in range(count):
                check_point(P, f'equation[{k}]', Q, out[k], a[1] if npar else ())
            # no point twice
            for i in range(count):
                for j in range(i):
                    if P.symbolic:
                        P.true(f'distinct[{i},{j}]', any(not (u - v).is_zero() for u, v in zip(out[i], out[j])), 'the same point twice', 'normal-form')
                    else:
                        P.true(f'distinct[{i},{j}]', np.max(np.abs(out[i] - out[j])) > 1e-12, 'the same point twice')
        C.run(Case(F, f'{name}: homogeneous, {count} points', lambda k, *p: X.sample_intersect(k, *(p or tail), count),
                   (key,) + par, post, scope=f'{name}, {count} points', replace=rep))
    for count in (1, 2) if n < 5 or C.thorough else (1,):
        def post_a(out, a, P):
            zs, patch = out
            P.same('shapes', [zs.shape, patch.shape], [(count, n - 1), (count,)])
            for k in range(count):
                check_point(P, f'equation[{k}]', Q.affine(int(patch[k])), zs[k], a[1] if npar else ())
                for i in range(n - 1):
                    P.le(f'modulus[{k},{i}]', zs[k][i] * np.conj(zs[k][i]), 1)
        C.run(Case(F, f'{name}: affine, {count} points', lambda k, *p: X.sample_intersect(k, *(p or tail), count, affine=True),
                   (key,) + par, post_a, scope=f'{name}, {count} points', replace=rep))


def counts(C):
    """Number of points for every request up to a bound, for all keys and parameters (shape inference)."""
    activate()
    import jax
    F = 'VarietySingle.sample_intersect'
    for name, (make, Q, npar) in all_varieties().items():
        X = make()
        n = len(Q.terms[0][2])
        for count in range(1, 25 if n < 5 else 13):
            p = (jax.ShapeDtypeStruct((npar,), complex),) if npar else ()
            key = jax.ShapeDtypeStruct((2,), np.uint32)
            try:
                hom = jax.eval_shape(lambda k, *p: X.sample_intersect(k, *(p or (None,)), count), key, *p).shape
                zs, patch = jax.eval_shape(lambda k, *p: X.sample_intersect(k, *(p or (None,)), count, affine=True), key, *p)
                shapes = [hom, zs.shape, patch.shape]
            except jax.errors.JAXTypeError:
                q = np.full(npar, 0.3 + 0.2j) if npar else None
                out = X.sample_intersect(jax.random.PRNGKey(3), q, count)
                C.bounded_eval(F, f'{name}: {count} points', np.shape(out) == (count, n), f'shape {np.shape(out)}', {'count': str(count)})
                continue
            C.obligation_eval(F, f'{name}: shape of {count} points', shapes == [(count, n), (count, n - 1), (count,)],
                              f'shapes {shapes}', {'count': str(count)})
