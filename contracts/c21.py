"""Random generators: range and law.

The underlying uniform and normal draws are opaque and exact.  The law of a
result is shown by writing it as a known function of distinct draws.  Where that
form is not found the question is left to statistics of the real code (bounded)."""
import itertools

import jax
import jax.numpy as jnp
import numpy as np

from cyjax import random, change_chart
from cjv import alg
from cjv.core import Case
from cjv.extract import Sym, activate
from cjv.interp import to_obj
from .c04 import is_best
from .c10 import cc, total
from . import sizes
from .c11 import extracting

MANY = 3000        # samples in statistics; bounds below are passed with probability > 1 - 1e-9
KEY = Sym('key', (2,), kind='k')


# ------------------------------------------------------------ laws, exactly

class Draws:
    def __init__(self, P):
        self.u = self._of(P, 'u')
        self.n = self._of(P, 'n')
        self.used = set()

    @staticmethod
    def _of(P, kind):
        return [x for tag, arr in P.ctx.draws.items() if tag[0] == kind for x in arr.reshape(-1)]

    def is_draw(self, x):
        return next((u for u in self.u if u.key() not in self.used and ((x - u).is_zero() or (x + u - 1).is_zero())), None)

    def uniform(self, x):
        """x is an unused draw u, or 1 - u."""
        u = self.is_draw(x)
        if u is None:
            return False
        self.used.add(u.key())
        return True

    def phase(self, x):
        """x is exp(2 pi i (c +- u)) of an unused draw, c a constant multiple of 1/4."""
        for u in self.u:
            if u.key() in self.used:
                continue
            e = alg.exp(2 * alg.I * alg.pi() * u)
            for y in (x / e, x * e):
                f = (y * y) * (y * y)
                if (f - 1).is_zero():
                    self.used.add(u.key())
                    return True
        return False

    def gaussian(self, xs):
        """xs is a vector of distinct unused normal draws divided by its norm."""
        own = []
        for x in xs:
            found = None
            for n in self.n:
                if n.key() in self.used:
                    continue
                if self._free(x / n, n, xs):
                    found = n
                    break
            if found is None:
                return False
            own.append(found)
            self.used.add(found.key())
        s = alg.sqrt(total(n * n for n in own))
        return all((x * s - n).is_zero() or (x * s + n).is_zero() for x, n in zip(xs, own))

    def _free(self, ratio, n, xs):
        return (ratio * ratio * total(m * m for m in self._row(n, len(xs))) - 1).is_zero()

    def _row(self, n, size):
        """Group of draws that n is normalised with."""
        keys = [m.key() for m in self.n]
        i = keys.index(n.key())
        return self.n[i - i % size:i - i % size + size]


# ------------------------------------------------------------ laws, by statistics

def is_uniform(P, name, x):
    x = np.sort(np.asarray(x, float).reshape(-1))
    n = len(x)
    if n < 500:
        return
    d = np.max(np.abs(x - (np.arange(n) + 0.5) / n)) * np.sqrt(n)
    P.true(name, d < 3.5, f'distance from the uniform law {d:.2f} (values {x[0]:.3g}..{x[-1]:.3g})')


def same_law(P, name, x, y):
    x, y = (np.asarray(v, float).reshape(-1) for v in (x, y))
    if min(len(x), len(y)) < 500:
        return
    g = np.sort(np.concatenate([x, y]))
    fx, fy = (np.searchsorted(np.sort(v), g, side='right') / len(v) for v in (x, y))
    d = np.max(np.abs(fx - fy)) * np.sqrt(len(x) * len(y) / (len(x) + len(y)))
    P.true(name, d < 3.5, f'distance of the laws {d:.2f}')


def uncorrelated(P, name, x, y):
    x, y = (np.asarray(v, float).reshape(-1) for v in (x, y))
    if len(x) < 500:
        return
    c = np.corrcoef(x, y)[0, 1] * np.sqrt(len(x))
    P.true(name, abs(c) < 6.5, f'correlation {c:.2f} standard deviations')


def angle(z):
    return (np.angle(z) / (2 * np.pi)) % 1


def law(P, name, ok):
    P.results.append((name, True if ok else None, '' if ok else 'form not recognised', 'normal-form'))


def size(shape):
    """Larger samples when run on numbers."""
    return shape if extracting() else (MANY, *shape)


def check_shape(P, out, shape):
    P.same('shape', np.shape(out), shape if P.symbolic else (MANY, *shape))


SHAPES = [(), (1,), (3,), (2, 2), (1, 3, 2)]


def simple(C):
    for sh in SHAPES:
        def post_c(out, a, P):
            check_shape(P, out, sh)
            out = np.asarray(out)
            if P.symbolic:
                D = Draws(P)
                for k in np.ndindex(*sh):
                    x = to_obj(out[k])[()] if not sh else out[k]
                    law(P, f'real part {list(k)} uniform on [-1,1)', D.uniform((x.real + 1) / 2))
                    law(P, f'imaginary part {list(k)} uniform on [-1,1)', D.uniform((x.imag + 1) / 2))
                return
            P.true('range', np.all((out.real >= -1) & (out.real < 1) & (out.imag >= -1) & (out.imag < 1)), 'outside [-1,1)')
            is_uniform(P, 'real part', (out.real + 1) / 2)
            is_uniform(P, 'imaginary part', (out.imag + 1) / 2)
            uncorrelated(P, 'parts', out.real, out.imag)
        C.run(Case('cyjax.random.uniform_components', f'shape {sh}', lambda k: random.uniform_components(k, size(sh)), (KEY,), post_c,
                   scope=f'shape {sh}', tries=6))

        def post_u(out, a, P):
            check_shape(P, out, sh)
            out = np.asarray(out)
            if P.symbolic:
                D = Draws(P)
                for k in np.ndindex(*sh):
                    x = to_obj(out[k])[()] if not sh else out[k]
                    P.eq(f'modulus {list(k)}', cc(x), 1)
                    law(P, f'uniform angle {list(k)}', D.phase(x))
                return
            P.eq('modulus', abs(out), np.ones(out.shape))
            is_uniform(P, 'angle', angle(out))
        C.run(Case('cyjax.random.uniform_angle_unit', f'shape {sh}', lambda k: random.uniform_angle_unit(k, size(sh)), (KEY,), post_u,
                   scope=f'shape {sh}', tries=6))

        lo, width = Sym('minrad', (), kind='r', sign='+'), Sym('width', (), kind='r', sign='+')
        for label, fn, args, radii in (
                ('both radii', lambda k, a, w: random.uniform_angle(k, size(sh), a, a + w), (KEY, lo, width), lambda a: (a[1], a[1] + a[2])),
                ('disk', lambda k, w: random.uniform_angle(k, size(sh), maxrad=w), (KEY, width), lambda a: (0, a[1])),
                ('annulus inside the unit disk', lambda k: random.uniform_angle(k, size(sh), 0.25), (KEY,), lambda a: (0.25, 1)),
                ('unit disk', lambda k: random.uniform_angle(k, size(sh)), (KEY,), lambda a: (0, 1))):
            def post(out, a, P):
                check_shape(P, out, sh)
                out = np.asarray(out)
                lo, hi = radii([to_obj(x)[()] if P.symbolic and np.ndim(x) == 0 else x for x in a])
                if P.symbolic:
                    D = Draws(P)
                    for k in np.ndindex(*sh):
                        x = to_obj(out[k])[()] if not sh else out[k]
                        m2 = cc(x)
                        law(P, f'squared modulus {list(k)} uniform between the squared radii', D.uniform((m2 - lo * lo) / (hi * hi - lo * lo)))
                        law(P, f'uniform angle {list(k)}', D.phase(x / alg.sqrt(m2)))
                    return
                r = abs(out)
                eps = 1e-12 * (1 + hi)
                P.true('range', np.all((r >= lo - eps) & (r <= hi + eps)), f'modulus {r.min():.4g}..{r.max():.4g} outside {lo:.4g}..{hi:.4g}')
                is_uniform(P, 'squared modulus', (r ** 2 - lo ** 2) / (hi ** 2 - lo ** 2))
                is_uniform(P, 'angle', angle(out))
                uncorrelated(P, 'modulus and angle', r, angle(out))
            C.run(Case('cyjax.random.uniform_angle', f'{label}, shape {sh}', fn, args, post, scope=f'shape {sh}', tries=6))


def sphere_post(n, real, sh):
    def parts(row):
        return list(row) if real else [x.real for x in row] + [x.imag for x in row]

    def post(out, a, P):
        check_shape(P, out, sh)
        out = np.asarray(out)
        if not sh:
            P.eq('value', out, np.ones(out.shape))
            return
        D = Draws(P) if P.symbolic else None
        if P.symbolic:
            for k in np.ndindex(*sh[:-1]):
                P.eq(f'norm {list(k)}', total(cc(x) for x in out[k]), 1)
                law(P, f'normalised Gaussian vector {list(k)}', D.gaussian(parts(out[k])))
            return
        P.eq('norm', np.sum(abs(out) ** 2, -1), np.ones(out.shape[:-1]))
        x = out if real else np.concatenate([out.real, out.imag], -1)
        x = x.reshape(-1, x.shape[-1])
        # compare with normalised Gaussian vectors
        g = np.random.default_rng(len(x)).normal(size=x.shape)
        g /= np.linalg.norm(g, axis=-1, keepdims=True)
        for i in range(x.shape[1]):
            same_law(P, f'component {i}', x[:, i], g[:, i])
            for j in range(i):
                same_law(P, f'components {i} {j}', x[:, i] * x[:, j], g[:, i] * g[:, j])
                same_law(P, f'squares {i} {j}', x[:, i] ** 2 - x[:, j] ** 2, g[:, i] ** 2 - g[:, j] ** 2)
    return post


def spheres(C):
    for sh in [(1,), (2,), (3,), (5,), (6,), (7,), (2, 2), (2, 3), (2, 1, 2), (2, 6)]:
        C.run(Case('cyjax.random.real_sphere', f'shape {sh}', lambda k: random.real_sphere(k, size(sh)), (KEY,), sphere_post(sh[-1], True, sh),
                   scope=f'shape {sh}', tries=4))
        C.run(Case('cyjax.random.complex_sphere', f'shape {sh}', lambda k: random.complex_sphere(k, size(sh)), (KEY,),
                   sphere_post(sh[-1], False, sh), scope=f'shape {sh}', tries=4))
    one = lambda out, a, P: P.eq('value', out, 1)
    C.run(Case('cyjax.random.real_sphere', 'shape ()', lambda k: random.real_sphere(k, ()), (KEY,), one, scope='shape ()'))
    C.run(Case('cyjax.random.complex_sphere', 'shape ()', lambda k: random.complex_sphere(k, ()), (KEY,), one, scope='shape ()'))


def projective(C):
    for count, dim in ((1, 1), (1, 2), (2, 1), (2, 2), (1, 3)):
        def number(k, f):
            return f(k, count if extracting() else count * MANY)

        def post_h(out, a, P):
            out = np.asarray(out)
            sphere_post(dim + 1, False, (count, dim + 1))(out if P.symbolic else out.reshape(MANY, count, dim + 1), a, P)
        C.run(Case('cyjax.random.uniform_projective', f'{count} points, dimension {dim}, homogeneous',
                   lambda k: number(k, lambda k, n: random.uniform_projective(k, n, dim, affine=False)), (KEY,), post_h, scope=f'dim {dim}', tries=4))

        def post_a(out, a, P):
            z, patch = (np.asarray(x) for x in out)
            n = len(patch)
            P.same('shapes', (z.shape, patch.shape), ((n, dim), (n,)))
            if not P.symbolic:
                P.true('best patch', np.all(abs(z) <= 1 + 1e-12) and np.all((patch >= 0) & (patch <= dim)), 'coordinate above one')
                Z = np.array([np.insert(x, p, 1) for x, p in zip(z, patch)])
                g = np.random.default_rng(n).normal(size=(2, n, dim + 1))
                g = g[0] + 1j * g[1]
                for i in range(dim + 1):
                    same_law(P, f'coordinate {i}', abs(Z[:, i]) ** 2 / np.sum(abs(Z) ** 2, 1), abs(g[:, i]) ** 2 / np.sum(abs(g) ** 2, 1))
                    for j in range(i):
                        is_uniform(P, f'angle {i} {j}', angle(Z[:, i] / Z[:, j]))
                return
            P.same('number', n, count)
            s = [arr for tag, arr in P.ctx.draws.items() if tag[0] == 'sphere']
            law(P, 'points of the sphere', len(s) == 1 and s[0].shape == (count, dim + 1))
            if len(s) != 1:
                return
            for k in range(count):
                p = int(np.asarray(patch[k]))
                P.eq(f'point {k}', z[k], np.array([s[0][k, i] / s[0][k, p] for i in range(dim + 1) if i != p]))
                is_best(P, f'patch {k}', list(s[0][k]), p)
        C.run(Case('cyjax.random.uniform_projective', f'{count} points, dimension {dim}, affine',
                   lambda k: number(k, lambda k, n: random.uniform_projective(k, n, dim)), (KEY,), post_a, scope=f'dim {dim}', tries=4,
                   replace=C.uses('complex_sphere', 'pop')))


def overlap(C):
    """|z_o| = s^(2u-1), |z_j|^2 = u_j (s min(1, |z_o|))^2 and uniform angles, all draws distinct.

    In the other patch |z_o'| = s^(1-2u), |z_j'|^2 = u_j (s min(1, 1/|z_o|))^2 and the
    angles are -a_o, a_j - a_o: the same law, and both are bounded by s."""
    q = Sym('q', (), kind='r', sign='+')
    for dim in (1, 2, 3, 4):
        for this, other in itertools.permutations(range(dim + 1), 2):
            for count in (1, 2) if dim < 3 else (1,):
                o = other if other < this else other - 1

                def fn(k, q):
                    if extracting():
                        return random.projective_overlap(k, count, dim, this, other, 1 + q)
                    k1, k2 = jax.random.split(k)
                    return (random.projective_overlap(k1, count, dim, this, other, 1 + q),
                            random.projective_overlap(k1, MANY, dim, this, other, 1 + q),
                            random.projective_overlap(k2, MANY, dim, other, this, 1 + q))

                def post(out, a, P):
                    if not P.symbolic:
                        small, z, w = out
                        P.same('shape', small.shape, (count, dim))
                        s = 1 + float(a[1])
                        t = np.asarray(change_chart(jnp.asarray(z), this, other))
                        for nm, x in (('this', z), ('other', t)):
                            P.true(f'bounded in {nm} patch', np.all(abs(x) <= s * (1 + 1e-9)), f'modulus {abs(x).max():.6g} above {s:.6g}')
                        for i in range(dim):
                            same_law(P, f'modulus {i}', abs(t[:, i]), abs(w[:, i]))
                            same_law(P, f'angle {i}', angle(t[:, i]), angle(w[:, i]))
                            for j in range(i):
                                same_law(P, f'moduli {i} {j}', abs(t[:, i] / t[:, j]), abs(w[:, i] / w[:, j]))
                                same_law(P, f'angles {i} {j}', angle(t[:, i] / t[:, j]), angle(w[:, i] / w[:, j]))
                                same_law(P, f'product {i} {j}', abs(t[:, i] * t[:, j]), abs(w[:, i] * w[:, j]))
                        return
                    out = np.asarray(out)
                    P.same('shape', out.shape, (count, dim))
                    D = Draws(P)
                    s = 1 + to_obj(a[1])[()]
                    for k in range(count):
                        x = out[k]
                        rad = next((r for u in D.u for r in [alg.exp(alg.log(s) * (2 * u - 1))]
                                    if u.key() not in D.used and (cc(x[o]) - r * r).is_zero() and D.uniform(u)), None)
                        law(P, f'point {k}: modulus of the coordinate of the other patch', rad is not None)
                        if rad is None:
                            continue
                        law(P, f'point {k}: angle {o}', D.phase(x[o] / rad))
                        rest = [j for j in range(dim) if j != o]
                        if not rest:
                            continue
                        top = next((t for t in (s * rad, s) if D.is_draw(cc(x[rest[0]]) / (t * t))), None)
                        law(P, f'point {k}: bound of the moduli', top is not None)
                        if top is None:
                            continue
                        for t in (s * rad, s):
                            P.le(f'point {k}: bound of the moduli is the smaller one', top, t)
                        for j in rest:
                            v = cc(x[j]) / (top * top)
                            law(P, f'point {k}: squared modulus {j}', D.uniform(v))
                            law(P, f'point {k}: angle {j}', D.phase(x[j] / (top * alg.sqrt(v))))
                C.run(Case('cyjax.random.projective_overlap', f'dimension {dim}, patches {this} {other}, {count} points', fn, (KEY, q), post,
                           scope=f'dim {dim}', tries=2 if dim > 2 else 4))
    C.run(Case('cyjax.random.projective_overlap', 'no points', lambda k: random.projective_overlap(k, 0, 2, 0, 1, 2.), (KEY,),
               lambda out, a, P: P.same('shape', np.shape(out), (0, 2))))


def run(C):
    C.total = False
    sizes.generators(C)
    sizes.affine_points(C)
    sizes.overlap(C)
    activate()
    simple(C)
    spheres(C)
    projective(C)
    overlap(C)
