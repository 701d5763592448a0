"""Homogeneous <-> affine coordinates."""
import numpy as np

import cyjax
from cyjax import hom_to_affine, affine_to_hom
from cjv.core import Case
from cjv.extract import Sym
from . import sizes
from . import lemmas as L


def spec_to_affine(h, p):
    return np.stack([h[k] / h[p] for k in range(len(h)) if k != p]) if len(h) > 1 else h[:0]


def spec_to_hom(z, p):
    one = np.ones(1) if z.dtype != object else L.to_obj(np.ones(1))
    return np.concatenate([z[:p], one, z[p:]])


def best(out, h, P, tag=''):
    z, patch = out
    patch = int(patch)
    P.true(f'patch in range{tag}', 0 <= patch < len(h))
    for j in range(len(h)):
        if j != patch:
            P.le(f'|h_{j}| <= |h_patch|{tag}', np.abs(h[j]), np.abs(h[patch]))
    P.eq(f'affine{tag}', z, spec_to_affine(h, patch))


def run(C):
    sizes.affine_to_hom(C)
    sizes.hom_to_affine(C)
    rep = C.uses('pop', 'insert_1d')
    dims = range(1, 7) if C.thorough else range(1, 6)
    for n in dims:
        def post_none(out, a, P):
            best(out, a[0], P)
        C.run(Case('cyjax.hom_to_affine', f'n={n} no patch', hom_to_affine, (Sym('h', (n,)),), post_none, replace=rep, scope=f'n={n}'))
        for p in range(n):
            def post_a(out, a, P):
                P.eq('affine', out, spec_to_affine(a[0], a[1]))

            def post_h(out, a, P):
                P.eq('hom', out, spec_to_hom(a[0], a[1]))
            C.run(Case('cyjax.hom_to_affine', f'n={n} patch={p}', hom_to_affine, (Sym('h', (n,)), p), post_a, replace=rep, scope=f'n={n}'))
            C.run(Case('cyjax.affine_to_hom', f'n={n} patch={p}', affine_to_hom, (Sym('z', (n - 1,)), p), post_h, replace=rep, scope=f'n={n}'))
            # round trips
            def post_same(out, a, P):
                P.given_nonzero(a[0][a[1]])
                P.eq('same point', out * a[0][a[1]], a[0])
            C.run(Case('hom_to_affine o affine_to_hom', f'n={n} patch={p}', lambda z, p: hom_to_affine(affine_to_hom(z, p), p),
                       (Sym('z', (n - 1,)), p), lambda out, a, P: P.eq('same affine', out, a[0]), replace=rep, scope=f'n={n}'))
            C.run(Case('affine_to_hom o hom_to_affine', f'n={n} patch={p}', lambda h, p: affine_to_hom(hom_to_affine(h, p), p),
                       (Sym('h', (n,)), p), post_same, replace=rep, scope=f'n={n}'))
    # every affine coordinate has modulus at most one (from the contract above: |h_j| <= |h_p|)
    for n in (2, 3, 4):
        def post_le1(out, a, P):
            for j in range(n - 1):
                P.le(f'|z_{j}| <= 1', np.abs(out[0][j]) ** 2, 1)
        C.run(Case('cyjax.hom_to_affine', f'n={n} no patch, modulus', hom_to_affine, (Sym('h', (n,)),), post_le1, replace=rep, scope=f'n={n}'))

    # batch dimensions: every entry as in the unbatched case
    def batched(shape, pshape, n, label):
        rng = np.random.default_rng(C.seed)
        patch = np.asarray(rng.integers(0, n, size=pshape))
        out_shape = np.broadcast_shapes(shape, pshape)

        def post_a(out, a, P):
            h = np.broadcast_to(a[0], (*out_shape, n))
            p = np.broadcast_to(patch, out_shape)
            P.same('shape', out.shape, (*out_shape, n - 1))
            for k in np.ndindex(*out_shape):
                P.eq(f'{list(k)}', out[k], spec_to_affine(h[k], int(p[k])))

        def post_h(out, a, P):
            z = np.broadcast_to(a[0], (*out_shape, n - 1))
            p = np.broadcast_to(patch, out_shape)
            P.same('shape', out.shape, (*out_shape, n))
            for k in np.ndindex(*out_shape):
                P.eq(f'{list(k)}', out[k], spec_to_hom(z[k], int(p[k])))
        C.run(Case('cyjax.hom_to_affine', f'batch {label}', hom_to_affine, (Sym('h', (*shape, n)), patch), post_a, replace=rep, scope=label))
        C.run(Case('cyjax.affine_to_hom', f'batch {label}', affine_to_hom, (Sym('z', (*shape, n - 1)), patch), post_h, replace=rep, scope=label))
    batched((2,), (2,), 3, '(2,) with patches (2,)')
    batched((2, 2), (2,), 3, '(2,2) with patches (2,)')
    batched((3,), (), 4, '(3,) with one patch')
    batched((), (3,), 3, '() with patches (3,)')

    def post_bn(out, a, P):
        z, p = out
        P.same('shape', (z.shape, p.shape), ((2, 2), (2,)))
        for k in range(2):
            best((z[k], p[k]), a[0][k], P, f' entry {k}')
    C.run(Case('cyjax.hom_to_affine', 'batch (2,) no patch', hom_to_affine, (Sym('h', (2, 3)),), post_bn, replace=rep, scope='(2,)'))
    # the verifier itself is exercised on numbers, incl. zeros and ties
    for h in ([0, 0, 2j], [1, -1, 1j], [0, 3, 0], [1e-200, 1e-210, 0]):
        c = Case('cyjax.hom_to_affine', f'zeros and ties {h}', hom_to_affine, (np.array(h, complex),),
                 lambda out, a, P: best(out, a[0], P), symbolic=False, tries=1)
        C.run(c)
