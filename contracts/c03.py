"""Fubini-Study potential and metric."""
import jax
import numpy as np

from cyjax import fs_metric, fs_potential, change_chart, complex_hessian
from cyjax import projective
from cjv import alg
from cjv.core import Case
from cjv.extract import Sym, det
from . import lemmas as L
from . import sizes
from .c02 import spec_change
from .c01 import spec_to_hom


def norm2(z, zc):
    return sum(z[k] * zc[k] for k in range(len(z)))


def minors_positive(P, name, g):
    """Leading principal minors are positive (Sylvester)."""
    for m in range(1, len(g) + 1):
        d = det(g[:m, :m])
        P.positive(f'{name} minor {m}', d if P.symbolic else np.real(d))


def run(C):
    sizes.fubini_study(C)
    for case in L.cases_fs_metric(C, C.uses):
        C.run(case)
    for n in range(1, 5):
        Z, W = Sym('z', (n,)), Sym('w', (n,))
        for hom in (False, True):
            def post(out, a, P):
                z = a[0]
                zc = a[1] if len(a) > 1 else np.conj(z)
                P.eq('K', out, np.log((0 if hom else 1) + norm2(z, zc)))
            fn = (lambda *a: fs_potential(*a, hom=True)) if hom else fs_potential
            C.run(Case('cyjax.fs_potential', f'n={n} hom={hom}', fn, (Z,), post, scope=f'n={n}'))

            def post_c(out, a, P):
                # principal branch: exp of the result is the argument of the logarithm
                P.given_nonzero((0 if hom else 1) + norm2(a[0], a[1]))
                P.eq('exp K', np.exp(out), (0 if hom else 1) + norm2(a[0], a[1]))
            C.run(Case('cyjax.fs_potential', f'n={n} hom={hom} conjugate given', fn, (Z, W), post_c, scope=f'n={n}'))
        def post_hess(out, a, P):
            P.given_nonzero(1 + norm2(a[0], a[1]))
            P.eq('g', out[0], out[1])
        # the metric is the mixed Hessian of the potential (both traced from the code)
        C.run(Case('fs_metric = Hessian of fs_potential', f'n={n}',
                   lambda z, w: (fs_metric(z, w), complex_hessian(fs_potential)(z, w)), (Z, W),
                   post_hess, scope=f'n={n}'))

        def post_herm(out, a, P):
            P.eq('Hermitian', out, np.conj(out).T)
            minors_positive(P, 'positive', out)
        C.run(Case('fs_metric Hermitian positive', f'n={n}', fs_metric, (Z,), post_herm, scope=f'n={n}'))
    # compatibility with changes of patch: pullback along the transition map
    rep = C.uses('pop', 'insert_1d')
    for n in (1, 2, 3):
        for a in range(n + 1):
            for b in range(n + 1):
                if a == b or (n == 3 and not C.thorough and (a, b) not in [(0, 1), (1, 3), (3, 0), (2, 1)]):
                    continue

                def both(z, w, a, b):
                    f = lambda x: change_chart(x, a, b)
                    return fs_metric(z, w), fs_metric(f(z), f(w)), jax.jacfwd(f, holomorphic=True)(z), jax.jacfwd(f, holomorphic=True)(w)

                def post(out, x, P):
                    g, g2, j, jc = out
                    P.given_nonzero(1 + norm2(x[0], x[1]))
                    for y in x[:2]:
                        P.given_nonzero(spec_to_hom(y, int(x[2]))[int(x[3])])
                    P.eq('pullback', j.T @ g2 @ jc, g)
                C.run(Case('fs_metric under change_chart', f'n={n} {a}->{b}', both, (Sym('z', (n,)), Sym('w', (n,)), a, b), post, scope=f'n={n}'))

    def post_b(out, a, P):
        z = a[0]
        P.same('shape', out.shape, z.shape[:-1])
        for k in np.ndindex(*z.shape[:-1]):
            P.eq(f'K{list(k)}', out[k], np.log(1 + norm2(z[k], np.conj(z[k]))))
    C.run(Case('cyjax.fs_potential', 'batch (2,2) n=2', fs_potential, (Sym('z', (2, 2, 2)),), post_b, scope='(2,2)'))
    for z in ([0, 0], [0, 1j], [1e3, -2e3j], [1e-8, 1]):
        C.run(Case('fs_metric Hermitian positive', f'at {z}', fs_metric, (np.array(z, complex),), post_herm_num, symbolic=False, tries=1))


def post_herm_num(out, a, P):
    P.eq('value', out, L.spec_fs_metric(a[0], np.conj(a[0])))
    P.eq('Hermitian', out, np.conj(out).T)
