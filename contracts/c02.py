"""Chart changes and index maps."""
import jax.numpy as jnp
import numpy as np

import cyjax
from cyjax import change_chart, index_affine_to_hom, index_hom_to_affine, hom_to_affine, affine_to_hom
from cjv.core import Case
from cjv.extract import Sym
from . import sizes
from .c01 import spec_to_affine, spec_to_hom


def spec_change(z, a, b):
    return spec_to_affine(spec_to_hom(z, int(a)), int(b))


def same_in(out, want, x, P):
    """Equal where the coordinates divided by do not vanish."""
    h = spec_to_hom(x[0], int(x[1]))
    P.given_nonzero(np.array([h[int(b)] for b in x[2:]]))
    P.eq('same', out, want)


def run(C):
    rep = C.uses('pop', 'insert_1d')
    for n in (range(2, 7) if C.thorough else range(2, 6)):
        Z = Sym('z', (n - 1,))
        for a in range(n):
            for b in range(n):
                # equal patches: the quotients computed along the way are not used
                C.total = a != b
                C.run(Case('cyjax.change_chart', f'n={n} {a}->{b}', change_chart, (Z, a, b),
                           lambda out, x, P: P.eq('new', out, spec_change(*x)), replace=rep if a != b else (), scope=f'n={n}'))
                C.total = True
                if a != b:
                    C.run(Case('change_chart there and back', f'n={n} {a}->{b}->{a}',
                               lambda z, a, b: change_chart(change_chart(z, a, b), b, a), (Z, a, b),
                               lambda out, x, P: same_in(out, x[0], x, P), replace=rep, scope=f'n={n}'))
                    if n <= 4:
                        C.run(Case('change_chart = via homogeneous', f'n={n} {a}->{b}',
                                   lambda z, a, b: (change_chart(z, a, b), hom_to_affine(affine_to_hom(z, a), b)), (Z, a, b),
                                   lambda out, x, P: same_in(out[0], out[1], x, P), replace=rep, scope=f'n={n}'))
        if n <= 4:
            for a in range(n):
                for b in range(n):
                    for c in range(n):
                        if len({a, b, c}) == 3:
                            C.run(Case('change_chart composes', f'n={n} {a}->{b}->{c}',
                                       lambda z, a, b, c: (change_chart(change_chart(z, a, b), b, c), change_chart(z, a, c)),
                                       (Z, a, b, c), lambda out, x, P: same_in(out[0], out[1], x, P), replace=rep, scope=f'n={n}'))

    # batches
    def post(out, x, P):
        z, a, b = x
        sh = np.broadcast_shapes(z.shape[:-1], np.shape(a), np.shape(b))
        z, a, b = np.broadcast_to(z, (*sh, z.shape[-1])), np.broadcast_to(a, sh), np.broadcast_to(b, sh)
        P.same('shape', out.shape, z.shape)
        for k in np.ndindex(*sh):
            P.eq(f'{list(k)}', out[k], spec_change(z[k], a[k], b[k]))
    for lab, zs, a, b in [('(2,) one pair', (2, 2), 0, 2), ('(2,) pairs', (2, 2), np.array([0, 2]), np.array([1, 1])),
                          ('() pairs', (2,), np.array([0, 1, 2]), np.array([2, 0, 1])),

                          ('(2,2) pairs (2,)', (2, 2, 3), np.array([3, 1]), 2)]:
        C.run(Case('cyjax.change_chart', f'batch {lab}', change_chart, (Sym('z', zs), a, b), post, replace=rep, scope=lab))
    C.total = False
    C.run(Case('cyjax.change_chart', 'batch to one patch', change_chart, (Sym('z', (3, 2)), np.array([0, 1, 2]), 1), post, scope='(3,)'))
    C.total = True
    sizes.change_chart(C)
    sizes.index_maps(C)

    index_maps(C)


def index_maps(C):
    """For all integers: proved by SMT on the extracted integer programs."""
    from cjv import intprog
    f1, f2 = 'cyjax.index_hom_to_affine', 'cyjax.index_affine_to_hom'
    intprog.prove(C, f2, 'skips the patch', index_affine_to_hom, 2,
                  lambda p, i, o: ('and', ('=', o[0], ('ite', ('<', i, p), i, ('+', i, 1)))),
                  lambda p, i: ('and', ('>=', p, 0), ('>=', i, 0)))
    intprog.prove(C, f2, 'never the patch', index_affine_to_hom, 2,
                  lambda p, i, o: ('not', ('=', o[0], p)), lambda p, i: ('and', ('>=', p, 0), ('>=', i, 0)))
    intprog.prove(C, f1, 'removes the patch', index_hom_to_affine, 2,
                  lambda p, i, o: ('=', o[0], ('ite', ('<', i, p), i, ('-', i, 1))),
                  lambda p, i: ('and', ('>=', p, 0), ('>=', i, 0), ('not', ('=', p, i))))
    intprog.prove(C, f1, 'inverse of index_affine_to_hom', lambda p, i: index_hom_to_affine(p, index_affine_to_hom(p, i)), 2,
                  lambda p, i, o: ('=', o[0], i), lambda p, i: ('and', ('>=', p, 0), ('>=', i, 0)))
    intprog.prove(C, f2, 'inverse of index_hom_to_affine', lambda p, i: index_affine_to_hom(p, index_hom_to_affine(p, i)), 2,
                  lambda p, i, o: ('=', o[0], i), lambda p, i: ('and', ('>=', p, 0), ('>=', i, 0), ('not', ('=', p, i))))
    # arrays of indices
    rng = np.random.default_rng(C.seed)
    for t in range(4):
        p = rng.integers(0, 6, size=5)
        i = rng.integers(0, 6, size=5)
        want = np.where(i < p, i, i + 1)
        try:
            got = np.asarray(index_affine_to_hom(jnp.asarray(p), jnp.asarray(i)))
            back = np.asarray(index_hom_to_affine(jnp.asarray(p), jnp.asarray(want)))
        except Exception as e:
            C.fail(f2, 'arrays', f'raised {e!r}', dict(patch=p.tolist(), index=i.tolist()))
            return
        C.bounded_eval(f2, f'arrays {t}', np.array_equal(got, want), f'patch {p} index {i} gave {got}', dict(patch=p.tolist(), index=i.tolist()))
        C.bounded_eval(f1, f'arrays {t}', np.array_equal(back, i), f'patch {p} index {want} gave {back}', dict(patch=p.tolist(), index=want.tolist()))
