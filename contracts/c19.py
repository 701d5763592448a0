"""Variance loss of eta."""
import jax
import jax.numpy as jnp
import numpy as np

from cyjax import ml
from cjv import alg
from cjv.core import Case
from cjv.extract import Sym, activate
from cjv.interp import Interp, to_obj
from . import sizes
from .c10 import total

F = 'cyjax.ml.variance_eta_loss'


class Given:
    """Stands for the metric by the contract of eta: any values."""

    def __init__(self, eta):
        self.eta = eta


def negative(P, e):
    return Interp(P.ctx).less(e, alg.ZERO) if P.symbolic else e < 0


def spec(P, e, w):
    """(loss, m, relative deviations, negative parts)"""
    n = len(e)
    m = total(w[k] * e[k] for k in range(n)) / total(w)
    q = [e[k] / m - 1 for k in range(n)]
    neg = [e[k] if negative(P, e[k]) else 0 * e[k] for k in range(n)]
    log = alg.log if P.symbolic else np.log
    return total(w[k] * q[k] * q[k] for k in range(n)) / n + total(log(1 + x * x) for x in neg) / n, m, q, neg


def values(xs):
    return [x for x in np.asarray(xs).reshape(-1)]


def value(C):
    for n in (1, 2, 3, 4) + ((5,) if C.thorough else ()):
        e, w = Sym('e', (n,), kind='r'), Sym('w', (n,), kind='r', sign='+')

        def fn(e, w):
            zs, patch, par = jnp.zeros((n, 2), complex), jnp.zeros(n, int), jnp.zeros(1, complex)
            return ml.variance_eta_loss(jnp.eye(2), (par, zs, patch, w), Given(lambda h, zs, params=None, patch=None: e.astype(complex)))

        def post(out, a, P):
            P.same('shape', np.shape(out), ())
            P.eq('loss', out, spec(P, values(a[0]), values(a[1]))[0])
        C.run(Case(F, f'{n} values', fn, (e, w), post, scope=f'{n} samples', pre=away))

    # each summand of the formula is non-negative
    def post_sign(out, a, P):
        w, q = (values(x)[0] for x in a)
        log = alg.log if P.symbolic else np.log
        P.le('weighted square', 0, w * q * q)
        P.le('argument of the logarithm', 1, 1 + q * q)
        P.eq('logarithm of one', log(1 + 0 * q), 0)
    C.run(Case(F, 'summands are non-negative', lambda w, q: w, (Sym('w', (), kind='r', sign='+'), Sym('q', (), kind='r')), post_sign, scope='all counts'))

    for n in (1, 2, 3, 5, 8):
        def fn_const(c, w):
            zs, patch, par = jnp.zeros((n, 2), complex), jnp.zeros(n, int), jnp.zeros(1, complex)
            return ml.variance_eta_loss(jnp.eye(2), (par, zs, patch, w), Given(lambda h, zs, params=None, patch=None: jnp.ones(n, complex) * c))
        C.run(Case(F, f'{n} equal positive values', fn_const, (Sym('c', (), kind='r', sign='+'), Sym('w', (n,), kind='r', sign='+')),
                   lambda out, a, P: P.eq('loss', out, 0), scope=f'{n} samples'))


def away(sub):
    e, w = np.real(sub['e']), np.real(sub['w'])
    return abs(np.sum(w * e)) > 0.1 * np.sum(w)


def gradient(C):
    """eta_k = z_k . h + p patch_k: value, and gradient with m held constant."""
    for n, m in ((1, 1), (2, 1), (2, 2), (3, 1), (3, 2)):
        par = Sym('p', (1,), kind='r')
        z, h, w = Sym('z', (n, m), kind='r'), Sym('h', (m,), kind='r'), Sym('w', (n,), kind='r', sign='+')
        patch = np.arange(n) % 2

        def eta(h, zs, params=None, patch=None):
            return (zs @ h + params[0] * patch).astype(complex)

        def fn(h, z, p, w):
            f = lambda h: ml.variance_eta_loss(h, (p, z, jnp.asarray(patch), w), Given(eta))
            return jax.value_and_grad(f)(h)

        def numbers(h, z, p):
            return [total(z[k][j] * h[j] for j in range(m)) + p[0] * int(patch[k]) for k in range(n)]

        def post(out, a, P):
            h, z, p, w = (to_obj(x) if P.symbolic else x for x in a)
            e = numbers(h, z, p)
            loss, mean, q, neg = spec(P, e, w)
            P.eq('loss', out[0], loss)
            grad = [total(2 * w[k] * q[k] * z[k][j] / mean + 2 * neg[k] * z[k][j] / (1 + neg[k] * neg[k]) for k in range(n)) / n
                    for j in range(m)]
            P.eq('gradient', out[1], np.array(grad))

        def pre(sub):
            e = np.array(numbers(sub['h'], sub['z'], sub['p']))
            return away({'e': e, 'w': sub['w']})
        C.run(Case(F, f'{n} values of {m} variables: gradient', fn, (h, z, par, w), post, scope=f'{n} samples, {m} variables', pre=pre))


def run(C):
    sizes.loss(C)
    activate()
    value(C)
    gradient(C)
