"""The network from moduli to parameters of H."""
import itertools

import flax.linen as nn
import jax
import jax.numpy as jnp
import numpy as np

from cyjax import ml
from cjv import alg
from cjv.core import Case
from cjv.extract import Sym, activate, opaque, opaque_call
from cjv.interp import to_obj
from .c11 import extracting
from .c18 import lemma

F = 'cyjax.ml.HNetMLP'


@opaque('c_activation')
def _r_act(it, args, static):
    x = to_obj(args[0])
    out = np.empty(x.shape, dtype=object)
    for k in np.ndindex(*x.shape):
        out[k] = alg.Frac.atom(alg.SPACE.fn('activation', (x[k],), real=True))
    return [out]


def activation(x):
    """Any function of one real variable."""
    if not extracting():
        return nn.sigmoid(x)
    f = lambda v: opaque_call('c_activation', [((), v.dtype)], v)[0]
    for _ in range(x.ndim):
        f = jax.vmap(f)
    return f(x)


def stub_truncated(key, lower, upper, shape=None, dtype=float):
    """Some real numbers, a function of the key and the shape."""
    return jax.random.normal(key, tuple(shape))


RANDOM = ((jax.random, 'truncated_normal', stub_truncated),)


def shapes(net, npar):
    key = jax.random.PRNGKey(0)
    return jax.eval_shape(lambda k: net.init(k, jnp.ones((1, npar), complex), deterministic=True), key)


def parameters(net, npar):
    """Symbols for all weights."""
    n = itertools.count()
    return jax.tree_util.tree_map(lambda x: Sym(f'w{next(n)}', x.shape, kind='r'), shapes(net, npar))


def configurations(C):
    for N in (1, 2, 3):
        for layers in ((), (2,), (2, 3)):
            yield dict(basis_size=N, layer_sizes=layers), 1
    for powers in ((1,), (2,), (1, 3), (2, 1), (3, 2, 1)):
        yield dict(basis_size=2, layer_sizes=(2,), powers=powers), 2
    yield dict(basis_size=2, layer_sizes=(2,), powers=(1,)), 3
    for a, p, r in ((False, True, True), (True, False, True), (True, True, False), (False, True, False), (True, False, False), (False, False, True)):
        yield dict(basis_size=2, layer_sizes=(2,), powers=(1, 2), feature_angle=a, feature_abs=p, feature_parts=r), 2
    yield dict(basis_size=2, layer_sizes=(2,), powers=(1, 2), sig_suppress=False), 2
    yield dict(basis_size=3, layer_sizes=(), powers=(1, 2), sig_suppress=False), 1
    yield dict(basis_size=2, layer_sizes=(2, 3), dropout_rates=(0.3, None), powers=(1,)), 2
    yield dict(basis_size=2, layer_sizes=(2,), powers=(0.5, 1)), 1
    yield dict(basis_size=2, layer_sizes=(2,), powers=(-1, 2)), 2


def nz(cfg):
    return dict(nonzero=True) if min(cfg.get('powers', (1,))) < 0 else {}


def describe(cfg, npar):
    return ', '.join(f'{k} {v}' for k, v in cfg.items()) + f', {npar} moduli'


def rows(C):
    for cfg, npar in configurations(C):
        activate()
        net = ml.HNetMLP(**cfg, activation=activation)
        par = parameters(net, npar)
        N2 = cfg['basis_size'] ** 2
        apply = lambda par, x: net.apply(par, x, deterministic=True)
        for batch in (1, 2, 3):
            def fn(par, x):
                return apply(par, x), [apply(par, x[i:i + 1]) for i in range(batch)], [apply(par, x[i]) for i in range(batch)]

            def post(out, a, P):
                full, single, flat = out
                P.same('shape', np.shape(full), (batch, N2))
                for i in range(batch):
                    P.same(f'row {i}: shape', (np.shape(single[i]), np.shape(flat[i])), ((1, N2), (N2,)))
                    P.eq(f'row {i}', single[i][0], full[i])
                    P.eq(f'row {i} without batch axis', flat[i], full[i])
            C.run(Case(F, describe(cfg, npar) + f', batch of {batch}', fn, (par, Sym('x', (batch, npar), **nz(cfg))), post,
                       scope=f'{npar} moduli, batch {batch}', tries=3))
        if npar == 1:
            def post_s(out, a, P):
                P.same('shape', np.shape(out[0]), (N2,))
                P.eq('scalar', out[0], out[1])
            C.run(Case(F, describe(cfg, npar) + ', scalar', lambda par, x: (apply(par, x), apply(par, x.reshape(1, 1))[0]),
                       (par, Sym('x', ())), post_s, scope='1 modulus', tries=3))


def initial(C):
    rep = lemma(C)
    key = Sym('key', (2,), kind='k')
    for cfg, npar in configurations(C):
        for fluct in (0., 0.25):
            activate()
            net = ml.HNetMLP(**cfg, activation=activation, init_fluctuation=fluct)
            N = cfg['basis_size']

            def fn(key, x, y):
                # initialised on other data than evaluated
                par = net.init(key, y, deterministic=True)
                out = net.apply(par, x, deterministic=True)
                return out, net.apply(par, y, deterministic=True), [ml.cholesky_from_param(v) for v in out]

            def post(out, a, P):
                v, w, h = out
                P.eq('independent of the moduli', v, np.broadcast_to(w[:1], np.shape(v)))
                for i, m in enumerate(h):
                    m = np.asarray(m)
                    P.eq(f'diagonal {i}', m[~np.eye(N, dtype=bool)], np.zeros(N * N - N))
                    if fluct == 0:
                        P.eq(f'multiple of the identity {i}', m, m[0, 0] * np.eye(N))
                        P.positive(f'positive {i}', np.real(m[0, 0]))
            C.run(Case(F, describe(cfg, npar) + f', initial, fluctuation {fluct}', fn, (key, Sym('x', (2, npar), **nz(cfg)), Sym('y', (1, npar), **nz(cfg))), post,
                       scope=f'{npar} moduli', extra=RANDOM, replace=rep, tries=3, tol=1e-5))


def features(C):
    """Inputs of the first layer, read off as the derivative by its weights."""
    for powers, npar in (((1,), 1), ((2,), 1), ((1, 2, 3), 1), ((3, 1), 1), ((1,), 2), ((1, 2), 2), ((2, 3), 2), ((1, 2, 3), 2), ((1,), 3), ((0, 1), 2), ((1, 2), 3),
                         ((0.5,), 1), ((0.5, 1), 2), ((-1, 1), 2), ((0.5, 1.5, 2), 1)):
        for ang, ab, parts in ((True, True, True), (False, True, True), (True, True, False), (True, False, True), (False, True, False), (False, False, True)):
            for layers in ((), (1,)):
                activate()
                net = ml.HNetMLP(basis_size=1, layer_sizes=layers, powers=powers, sig_suppress=False, activation=lambda x: x,
                                 feature_angle=ang, feature_abs=ab, feature_parts=parts)
                sh = shapes(net, npar)
                leaves, tree = jax.tree_util.tree_flatten_with_path(sh)
                last = lambda path: 'final' in jax.tree_util.keystr(path)
                first = [i for i, (p, x) in enumerate(leaves) if len(x.shape) == 2 and last(p) == (not layers)]
                C.obligation_eval(F, f'powers {powers}, {npar} moduli, layers {layers}: one first layer', len(first) == 1, f'{[x[1].shape for x in leaves]}', None)
                if len(first) != 1:
                    continue

                def fn(x):
                    def out(K):
                        w = [K if i == first[0] else jnp.ones(s.shape) if len(s.shape) == 2 else jnp.zeros(s.shape) for i, (_, s) in enumerate(leaves)]
                        return net.apply(jax.tree_util.tree_unflatten(tree, w), x)
                    K = jnp.zeros(leaves[first[0]][1].shape)
                    return jax.jacfwd(out)(K).reshape(-1)

                def post(out, a, P):
                    got = list(out)
                    x = a[0]
                    for pw in itertools.product(sorted({0, *powers}), repeat=npar):
                        if not any(pw):
                            continue
                        f = 1
                        for v, e in zip(x, pw):
                            f = f * v ** e if e else f
                        for nm, want in (([('modulus', abs(f))] if ab else []) + ([('real part', f.real), ('imaginary part', f.imag)] if parts else [])):
                            i = next((i for i, g in enumerate(got) if same(P, g, want)), None)
                            P.true(f'{nm} of the product with powers {pw} is a feature', i is not None, 'not among the inputs of the first layer',
                                   **({'backend': 'normal-form'}))
                            if i is not None:
                                got.pop(i)
                C.run(Case(F, f'features: powers {powers}, {npar} moduli, angle {ang} modulus {ab} parts {parts}, layers {layers}', fn,
                           (Sym('x', (npar,), **nz(dict(powers=powers))),), post, scope=f'{npar} moduli', tries=3))


def same(P, g, w):
    if P.symbolic:
        return (g - w).is_zero()
    return abs(g - w) < 1e-4 * (1 + abs(w))


def run(C):
    activate()
    rows(C)
    initial(C)
    features(C)
