"""Embedding Jacobian, pullback and best dependent coordinate."""
import numpy as np

import cyjax
from cyjax import differential
from cyjax.projective import fs_metric
from cjv.core import Case
from cjv.extract import Sym
from cjv.interp import to_obj
from . import lemmas as L
from . import sizes
from .common import varieties

VARS = ('Dwork(1)', 'cubic, two parameters', 'Fermat(1)', 'Dwork(2)', 'quartic')


def is_best(P, name, G, j):
    """j is an index of largest modulus of G."""
    P.true(name + ' in range', 0 <= j < len(G))
    ab = np.abs(G) if not P.symbolic else [abs(g) for g in G]
    for k in range(len(G)):
        if k != j:
            P.le(f'{name} |G_{k}| <= |G_dep|', ab[k], ab[j])


def run(C):
    sizes.embedding(C)
    for case in L.cases_jacobian(C, C.uses):
        C.run(case)
    rep = C.uses('pop', 'insert_col')
    for n in range(2, 6):
        for d in range(n):
            def post(out, a, P):
                G, dep = a
                P.given_nonzero(G[dep])
                ind = [k for k in range(n) if k != dep]
                P.same('shape', out.shape, (n - 1, n))
                P.eq('identity on independent columns', out[:, ind], np.eye(n - 1))
                P.eq('tangent: J G = 0', out @ G, np.zeros(n - 1))
            C.run(Case('jacobian_embed tangency', f'n={n} dependent={d}', differential.jacobian_embed,
                       (Sym('G', (n,)), d), post, scope=f'n={n}', replace=rep))

    def post_b(out, a, P):
        P.same('shape', out.shape, (2, 2, 3))
        for k in range(2):
            P.eq(f'J[{k}]', out[k], L.spec_jacobian(a[0][k], a[1][k]))
    C.run(Case('cyjax.jacobian_embed', 'batch 2', differential.jacobian_embed, (Sym('G', (2, 3)), np.array([2, 0])), post_b))

    rep = C.uses('jacobian_embed')
    for n in (2, 3, 4):
        for d in range(n):
            def post_i(out, a, P):
                P.eq('g', out, L.spec_induced(*a))
            g, G, Gc = Sym('g', (n, n)), Sym('G', (n,)), Sym('Gc', (n,))
            C.run(Case('cyjax.induced_metric', f'n={n} dependent={d}', differential.induced_metric, (g, G, d), post_i,
                       replace=rep, scope=f'n={n}'))
            C.run(Case('cyjax.induced_metric', f'n={n} dependent={d} conjugate given', differential.induced_metric,
                       (g, G, d, Gc), post_i, replace=rep, scope=f'n={n}'))

    vs = varieties()
    for name in VARS:
        make, Q, npar = vs[name]
        n = len(Q.terms[0][2])
        big = n > 3
        X = make()
        z, w, g = Sym('z', (n - 1,)), Sym('w', (n - 1,)), Sym('g', (n - 1, n - 1))
        par = Sym('p', (npar,))
        patches = range(n) if not big or C.thorough else (0, n - 1)
        for patch in patches:
            aff = Q.affine(patch)

            def grad(z, p):
                return aff.grad(z, p)
            fn = lambda z, p: X.best_dependent(z, p, patch)
            C.run(Case('VarietySingle.best_dependent', f'{name} patch={patch}', fn, (z, par),
                       lambda out, a, P: is_best(P, 'dependent', grad(*a), int(out)), scope=name))

            def post_j(out, a, P):
                J, dep = out
                G = grad(*a)
                is_best(P, 'dependent', G, int(dep))
                P.eq('J', J, L.spec_jacobian(G, dep))
            C.run(Case('VarietySingle.jacobian_embed', f'{name} patch={patch}', lambda z, p: X.jacobian_embed(z, p, patch),
                       (z, par), post_j, scope=name, replace=rep))

            def post_m(out, a, P):
                m, dep = out
                G = grad(*a[1:])
                is_best(P, 'dependent', G, int(dep))
                P.eq('g', m, L.spec_induced(a[0], G, dep))
            C.run(Case('VarietySingle.induced_metric', f'{name} patch={patch}', lambda g, z, p: X.induced_metric(g, z, p, patch),
                       (g, z, par), post_m, scope=name, replace=rep))
            for d in range(n - 1) if not big or C.thorough else (0, n - 2):
                C.run(Case('VarietySingle.jacobian_embed', f'{name} patch={patch} dependent={d}',
                           lambda z, p: X.jacobian_embed(z, p, patch, d), (z, par),
                           lambda out, a, P: P.eq('J', out, L.spec_jacobian(grad(*a), d)), scope=name, replace=rep))
                C.run(Case('VarietySingle.induced_metric', f'{name} patch={patch} dependent={d}',
                           lambda g, z, p: X.induced_metric(g, z, p, patch, dependent=d), (g, z, par),
                           lambda out, a, P: P.eq('g', out, L.spec_induced(a[0], grad(*a[1:]), d)), scope=name, replace=rep))

                def post_c(out, a, P):
                    g, z, w, p = a
                    P.eq('g', out, L.spec_induced(g, grad(z, p), d, grad(w, np.conj(p))))
                C.run(Case('VarietySingle.induced_metric', f'{name} patch={patch} dependent={d} conjugate given',
                           lambda g, z, w, p: X.induced_metric(g, z, p, patch, w, d), (g, z, w, par), post_c, scope=name, replace=rep))
                if n == 3:
                    repf = C.uses('jacobian_embed', 'fs_metric')
                    C.run(Case('VarietySingle.induced_fs', f'{name} patch={patch} dependent={d}',
                               lambda z, p: X.induced_fs(z, p, patch, dependent=d), (z, par),
                               lambda out, a, P: P.eq('g', out, L.spec_induced(L.spec_fs_metric(a[0], np.conj(a[0])), grad(*a), d)),
                               scope=name, replace=repf))

                    def post_fc(out, a, P):
                        z, w, p = a
                        P.eq('g', out, L.spec_induced(L.spec_fs_metric(z, w), grad(z, p), d, grad(w, np.conj(p))))
                    C.run(Case('VarietySingle.induced_fs', f'{name} patch={patch} dependent={d} conjugate given',
                               lambda z, w, p: X.induced_fs(z, p, patch, w, d), (z, w, par), post_fc, scope=name, replace=repf))
        if n == 3:
            def post_fs(out, a, P):
                m, dep = out
                G = Q.affine(1).grad(*a)
                is_best(P, 'dependent', G, int(dep))
                P.eq('g', m, L.spec_induced(L.spec_fs_metric(a[0], np.conj(a[0])), G, dep))
            C.run(Case('VarietySingle.induced_fs', f'{name} patch=1', lambda z, p: X.induced_fs(z, p, 1), (z, par), post_fs,
                       scope=name, replace=C.uses('jacobian_embed', 'fs_metric')))

            def post_batch(out, a, P):
                m, dep = out
                g, z, p = a
                P.same('shape', m.shape, (2, 1, 1))
                for k in range(2):
                    G = Q.affine((2, 0)[k]).grad(z[k], p)
                    is_best(P, f'dependent[{k}]', G, int(dep[k]))
                    P.eq(f'g[{k}]', m[k], L.spec_induced(g[k], G, dep[k]))
            C.run(Case('VarietySingle.induced_metric', f'{name} batch', lambda g, z, p: X.induced_metric(g, z, p, np.array([2, 0])),
                       (Sym('g', (2, 2, 2)), Sym('z', (2, 2)), par), post_batch, scope=name, replace=rep))
