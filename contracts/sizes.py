"""Contracts for every array size (proved with symbolic dimensions)."""
import jax
import jax.numpy as jnp
import numpy as np

from cyjax import util, projective, differential, ml, random, VarietySingle, complex_hessian
from cyjax.donaldson import AlgebraicMetric, LBSections
from cjv import alg, allsize
from cjv.allsize import Arr, Index, Key, Size
from cjv.extract import opaque_call


def cc(x):
    return x * x.conjugate()


# ------------------------------------------------------------ array helpers

def pop(C):
    def post(out, a, P):
        arr, i = a
        n = arr.shape[0]
        if P.lt(i, 0):
            i = i + n
        P.eq('element', out[0].at(), arr.at(i))
        P.shape('shape', out[1].shape, [n - 1])
        j = P.index('j', n - 1)
        if j is not None:
            P.eq('rest', out[1].at(j), arr.at(j) if P.lt(j, i) else arr.at(j + 1))
    allsize.run(C, 'cyjax.util.pop', 'vector', util.pop, [Arr('a', 'n'), Index('i', '0-n', 'n')], post, ['n-1'],
                [{'n': 7}, {'n': 12}])

    def post2(out, a, P):
        arr, i = a
        n, m = arr.shape
        P.shape('shapes', [*out[0].shape, *out[1].shape], [m, n - 1, m])
        k, j = P.index('k', m), P.index('j', n - 1)
        if k is None:
            return
        P.eq('element', out[0].at(k), arr.at(i, k))
        if j is not None:
            P.eq('rest', out[1].at(j, k), arr.at(j, k) if P.lt(j, i) else arr.at(j + 1, k))
    allsize.run(C, 'cyjax.util.pop', 'matrix', util.pop, [Arr('a', 'n', 'm'), Index('i', '0', 'n')], post2, ['n-1'],
                [{'n': 7, 'm': 3}])


def inserted(P, arr, v, i, j):
    """Entry j of the result of inserting the vector v at position i >= 0."""
    m = v.shape[0]
    return arr(j) if P.lt(j, i) else v(j - i) if P.lt(j, i + m) else arr(j - m)


def insert(C):
    def post(out, a, P):
        arr, v, i = a
        n = arr.shape[0]
        P.shape('shape', out.shape, [n + 1])
        j = P.index('j', n + 1)
        if P.lt(i, 0):
            i = i + n + 1
        P.eq('entry', out.at(j), arr.at(j) if P.lt(j, i) else v.at() if P.equal(j, i) else arr.at(j - 1))
    allsize.run(C, 'cyjax.util.insert_1d', 'one value', util.insert_1d, [Arr('a', 'n'), Arr('v'), Index('i', '0-n-1', 'n+1')], post,
                (), [{'n': 7}, {'n': 12}])

    def postm(out, a, P):
        arr, v, i = a
        n, m = arr.shape[0], v.shape[0]
        P.shape('shape', out.shape, [n + m])
        j = P.index('j', n + m)
        if j is None:
            return
        if P.lt(i, 0):
            i = i + n + 1              # the last of the values gets this index from the end
        P.eq('entry', out.at(j), arr.at(j) if P.lt(j, i) else v.at(j - i) if P.lt(j, i + m) else arr.at(j - m))
    allsize.run(C, 'cyjax.util.insert_1d', 'any number of values', util.insert_1d,
                [Arr('a', 'n'), Arr('v', 'm'), Index('i', '0-n-1', 'n+1')], postm, ['m-1'], [{'n': 7, 'm': 3}, {'n': 3, 'm': 8}])

    def postc(out, a, P):
        mat, col, i = a
        (r, n), m = mat.shape, (col.shape[1] if len(col.shape) == 2 else 1)
        P.shape('shape', out.shape, [r, n + m])
        k, j = P.index('k', r), P.index('j', n + m)
        if k is None or j is None:
            return
        if P.lt(i, 0):
            i = i + n + 1
        if P.lt(j, i):
            want = mat.at(k, j)
        elif P.lt(j, i + m):
            want = col.at(k, j - i) if len(col.shape) == 2 else col.at(k)
        else:
            want = mat.at(k, j - m)
        P.eq('entry', out.at(k, j), want)
    allsize.run(C, 'cyjax.util.insert_col', 'one column', util.insert_col,
                [Arr('a', 'r', 'n'), Arr('v', 'r'), Index('i', '0-n-1', 'n+1')], postc, (), [{'n': 7, 'r': 4}, {'n': 2, 'r': 9}])
    allsize.run(C, 'cyjax.util.insert_col', 'any number of columns', util.insert_col,
                [Arr('a', 'r', 'n'), Arr('v', 'r', 'm'), Index('i', '0-n-1', 'n+1')], postc, ['m-1'], [{'n': 7, 'r': 2, 'm': 3}])

    def postb(out, a, P):
        arr, v, i = a
        P.eq('value', out[0].at(), v.at())
        P.shape('shape', out[1].shape, arr.shape)
        j = P.index('j', arr.shape[0])
        if j is not None:
            P.eq('array', out[1].at(j), arr.at(j))
    allsize.run(C, 'pop after insert_1d', 'one value', lambda arr, v, i: util.pop(util.insert_1d(arr, v, i), i),
                [Arr('a', 'n'), Arr('v'), Index('i', '0-n-1', 'n+1')], postb, (), [{'n': 9}])


# ------------------------------------------------------------ charts

class Row:
    def __init__(self, z, i):
        self.z, self.i = z, i

    def at(self, *k):
        return self.z.at(self.i, *k)


def skip(P, z, p):
    """Entries of z without number p."""
    return lambda j: z.at(j) if P.lt(j, p) else z.at(j + 1)


def hom(P, z, p):
    """Entries of z with a one at position p."""
    return lambda j: z.at(j) if P.lt(j, p) else 1 if P.equal(j, p) else z.at(j - 1)


def affine_to_hom(C):
    def post(out, a, P):
        z, p = a
        n = z.shape[0]
        P.shape('shape', out.shape, [n + 1])
        j = P.index('j', n + 1)
        P.eq('entry', out.at(j), hom(P, z, p)(j))
    allsize.run(C, 'cyjax.affine_to_hom', 'one point', projective.affine_to_hom, [Arr('z', 'n'), Index('p', 0, 'n+1')], post,
                (), [{'n': 7}, {'n': 11}])

    def postb(out, a, P):
        z, p = a
        b, n = z.shape
        P.shape('shape', out.shape, [b, n + 1])
        k, j = P.index('k', b), P.index('j', n + 1)
        if k is not None:
            P.eq('entry', out.at(k, j), z.at(k, j) if P.lt(j, p) else 1 if P.equal(j, p) else z.at(k, j - 1))
    allsize.run(C, 'cyjax.affine_to_hom', 'any number of points', projective.affine_to_hom, [Arr('z', 'b', 'n'), Index('p', 0, 'n+1')],
                postb, ['b-1'], [{'n': 7, 'b': 5}])


def hom_to_affine(C):
    def post(out, a, P):
        z, p = a
        n = z.shape[0] - 1
        P.shape('shape', out.shape, [n])
        j = P.index('j', n)
        if j is not None:
            P.eq('entry', out.at(j), skip(P, z, p)(j) / z.at(p))
    allsize.run(C, 'cyjax.hom_to_affine', 'given patch', projective.hom_to_affine, [Arr('z', 'n+1'), Index('p', 0, 'n+1')], post,
                (), [{'n': 7}, {'n': 11}])

    def postn(out, a, P):
        z, = a
        zs, p = out[0], out[1].at()
        n = z.shape[0] - 1
        P.shape('shapes', [*zs.shape], [n])
        j = P.index('j', n)
        if j is not None:
            P.eq('entry', zs.at(j), skip(P, z, p)(j) / z.at(p))
            P.le('modulus at most one', cc(zs.at(j)), 1)
    allsize.run(C, 'cyjax.hom_to_affine', 'best patch', projective.hom_to_affine, [Arr('z', 'n+1')], postn,
                (), [{'n': 7}, {'n': 11}])

    def back(out, a, P):
        z, p = a
        P.shape('shape', out.shape, z.shape)
        j = P.index('j', z.shape[0])
        if j is not None:
            P.eq('entry', out.at(j), z.at(j))
    def rows(out, a, P):
        z, = a
        zs, p = out
        m, n = z.shape[0], z.shape[1] - 1
        P.shape('shapes', [*zs.shape, *p.shape], [m, n, m])
        i = P.index('i', m)
        if i is None:
            return
        row = Row(z, i)
        p = p.at(i)
        j = P.index('j', n)
        if j is not None:
            P.eq('entry', zs.at(i, j), skip(P, row, p)(j) / z.at(i, p))
            P.le('modulus at most one', cc(zs.at(i, j)), 1)
    allsize.run(C, 'cyjax.hom_to_affine', 'best patch, batch', projective.hom_to_affine, [Arr('z', 'm', 'n+1')], rows,
                (), [{'n': 7, 'm': 3}])

    allsize.run(C, 'hom_to_affine after affine_to_hom', 'same patch', lambda z, p: projective.hom_to_affine(projective.affine_to_hom(z, p), p),
                [Arr('z', 'n'), Index('p', 0, 'n+1')], back, (), [{'n': 9}])

    def scaled(out, a, P):
        z, p, c = a
        n = z.shape[0] - 1
        j = P.index('j', n)
        P.shape('shape', out.shape, [n])
        if j is not None:
            P.eq('entry', out.at(j), skip(P, z, p)(j) / z.at(p))
    allsize.run(C, 'cyjax.hom_to_affine', 'rescaled coordinates', lambda z, p, c: projective.hom_to_affine(z * c, p),
                [Arr('z', 'n+1'), Index('p', 0, 'n+1'), Arr('c')], scaled, (), [{'n': 7}])


def change_chart(C):
    def post(out, a, P):
        z, p, q = a
        n = z.shape[0]
        h = hom(P, z, p)
        P.shape('shape', out.shape, [n])
        j = P.index('j', n)
        if j is not None:
            P.eq('entry', out.at(j), (h(j) if P.lt(j, q) else h(j + 1)) / h(q))
    allsize.run(C, 'cyjax.change_chart', 'one point', projective.change_chart,
                [Arr('z', 'n'), Index('p', 0, 'n+1'), Index('q', 0, 'n+1')], post, (), [{'n': 7}, {'n': 10}], tries=4)

    def back(out, a, P):
        z = a[0]
        j = P.index('j', z.shape[0])
        if j is not None:
            P.eq('entry', out.at(j), z.at(j))
    allsize.run(C, 'cyjax.change_chart', 'there and back',
                lambda z, p, q: projective.change_chart(projective.change_chart(z, p, q), q, p),
                [Arr('z', 'n'), Index('p', 0, 'n+1'), Index('q', 0, 'n+1')], back, ['n-1'], [{'n': 7}], tries=4)


def index_maps(C):
    def fn(p, i, h):
        A, H = projective.index_affine_to_hom, projective.index_hom_to_affine
        return A(p, i), H(p, A(p, i)), H(p, h), A(p, H(p, h))

    def post(out, a, P):
        p, i, h = a
        up, back, down, forth = [o.at() for o in out]
        P.same_index('homogeneous index', up, i if P.lt(i, p) else i + 1)
        P.same_index('inverse from affine', back, i)
        if not P.equal(h, p):
            P.same_index('affine index', down, h if P.lt(h, p) else h - 1)
            P.same_index('inverse from homogeneous', forth, h)
        P.same_index('not the patch', 1 if P.equal(up, p) else 0, 0)
    allsize.run(C, 'cyjax.index_affine_to_hom', 'inverse maps', fn, [Index('p', 0, 'n+1'), Index('i', 0, 'n'), Index('h', 0, 'n+1')],
                post, ['n-1'], [{'n': 9}], tries=6)


# ------------------------------------------------------------ Fubini-Study

def fubini_study(C):
    def post(out, a, P):
        z = a[0]
        w = (lambda k: a[1].at(k)) if len(a) > 1 else (lambda k: z.at(k).conjugate())
        n = z.shape[0]
        P.shape('shape', out.shape, [n, n])
        i, j = P.index('i', n), P.index('j', n)
        if i is None or j is None:
            return
        s = 1 + P.sum(n, lambda k: z.at(k) * w(k))
        P.eq('entry', out.at(i, j), ((s if P.equal(i, j) else 0) - w(i) * z.at(j)) / (s * s))
        if len(a) == 1:
            P.eq('hermitian', out.at(i, j), out.at(j, i).conjugate())
    F = 'cyjax.fs_metric'
    allsize.run(C, F, 'one point', projective.fs_metric, [Arr('z', 'n')], post, ['n-1'], [{'n': 6}, {'n': 9}])
    allsize.run(C, F, 'independent conjugate', projective.fs_metric, [Arr('z', 'n'), Arr('w', 'n')], post, ['n-1'], [{'n': 6}])

    def postq(g, a, P):
        z, v = a
        n = z.shape[0]
        s = 1 + P.sum(n, lambda k: cc(z.at(k)))
        form = P.sum(n, lambda i: P.sum(n, lambda j: v.at(i) * g.at(i, j) * v.at(j).conjugate()))
        squares = P.sum(n, lambda i: P.sum(n, lambda j: cc(v.at(i) * z.at(j) - v.at(j) * z.at(i))))
        P.eq('v g v* is (|v|^2 + sum of |v_i z_j - v_j z_i|^2 / 2) / (1 + |z|^2)^2, so positive', form,
             (P.sum(n, lambda i: cc(v.at(i))) + squares / 2) / (s * s))
    allsize.run(C, F, 'positive definite', lambda z, v: projective.fs_metric(z), [Arr('z', 'n'), Arr('v', 'n')], postq, ['n-1'], [{'n': 6}])

    def postb(out, a, P):
        z, = a
        b, n = z.shape
        P.shape('shape', out.shape, [b, n, n])
        k, i, j = P.index('k', b), P.index('i', n), P.index('j', n)
        if k is None or i is None or j is None:
            return
        s = 1 + P.sum(n, lambda l: cc(z.at(k, l)))
        P.eq('entry', out.at(k, i, j), ((s if P.equal(i, j) else 0) - z.at(k, i).conjugate() * z.at(k, j)) / (s * s))
    allsize.run(C, F, 'any number of points', projective.fs_metric, [Arr('z', 'b', 'n')], postb, ['n-1', 'b-1'], [{'n': 6, 'b': 3}])

    def postp(out, a, P):
        z, = a
        P.shape('shape', out.shape, [])
        P.eq('value', out.at(), P.log(1 + P.sum(z.shape[0], lambda k: cc(z.at(k)))))

    def posth(out, a, P):
        z, = a
        P.shape('shape', out.shape, [])
        P.eq('value', out.at(), P.log(P.sum(z.shape[0], lambda k: cc(z.at(k)))))
    F = 'cyjax.fs_potential'
    allsize.run(C, F, 'affine', projective.fs_potential, [Arr('z', 'n')], postp, ['n-1'], [{'n': 6}, {'n': 9}])
    allsize.run(C, F, 'homogeneous', lambda z: projective.fs_potential(z, hom=True), [Arr('z', 'n')], posth, ['n-1'], [{'n': 6}])

    def postd(out, a, P):
        g, h = out
        n = a[0].shape[0]
        P.shape('shapes', [*g.shape, *h.shape], [n] * 4)
        i, j = P.index('i', n), P.index('j', n)
        P.eq('entry', g.at(i, j), h.at(i, j))
    allsize.run(C, 'fs_metric = Hessian of fs_potential', 'one point',
                lambda z, w: (projective.fs_metric(z, w), complex_hessian(projective.fs_potential)(z, w)),
                [Arr('z', 'n'), Arr('w', 'n')], postd, ['n-1'])

    def postr(out, a, P):
        P.eq('value', out[0].at(), out[1].at())
    allsize.run(C, F, 'potential of the affine coordinates in any patch',
                lambda z, p: (projective.fs_potential(projective.affine_to_hom(z, p), hom=True), projective.fs_potential(z)),
                [Arr('z', 'n'), Index('p', 0, 'n+1')], postr, ['n-1'], [{'n': 6}])


# ------------------------------------------------------------ embedding

def jac_entry(P, G, d, i, j):
    """dz_j / dx_i, coordinate d dependent."""
    x = (lambda k: G.at(k) if P.lt(k, d) else G.at(k + 1))
    if P.equal(j, d):
        return -x(i) / G.at(d)
    col = j if P.lt(j, d) else j - 1
    return 1 if P.equal(i, col) else 0


def embedding(C):
    def post(out, a, P):
        G, d = a
        n = G.shape[0]
        P.shape('shape', out.shape, [n - 1, n])
        i, j = P.index('i', n - 1), P.index('j', n)
        if i is not None:
            P.eq('entry', out.at(i, j), jac_entry(P, G, d, i, j))
    allsize.run(C, 'cyjax.jacobian_embed', 'one point', differential.jacobian_embed, [Arr('G', 'n'), Index('d', 0, 'n')], post,
                ['n-2'], [{'n': 7}, {'n': 10}])

    def tangent(out, a, P):
        G, d = a
        i = P.index('i', G.shape[0] - 1)
        if i is not None:
            P.eq('rows are tangent', P.sum(G.shape[0], lambda j: out.at(i, j) * G.at(j)), 0)
    allsize.run(C, 'cyjax.jacobian_embed', 'tangent vectors', differential.jacobian_embed, [Arr('G', 'n'), Index('d', 0, 'n')], tangent,
                ['n-2'], [{'n': 7}])

    def pull(out, a, P):
        g, G, d = a
        n = G.shape[0]
        P.shape('shape', out.shape, [n - 1, n - 1])
        i, k = P.index('i', n - 1), P.index('k', n - 1)
        if i is None or k is None:
            return
        p = lambda x: x if P.lt(x, d) else x + 1
        i, k = p(i), p(k)
        ri, rk = G.at(i) / G.at(d), (G.at(k) / G.at(d)).conjugate()
        P.eq('entry', out.at(*[x if P.lt(x, d) else x - 1 for x in (i, k)]),
             g.at(i, k) - ri * g.at(d, k) - rk * g.at(i, d) + ri * rk * g.at(d, d))
    allsize.run(C, 'cyjax.induced_metric', 'one point', differential.induced_metric,
                [Arr('g', 'n', 'n'), Arr('G', 'n'), Index('d', 0, 'n')], pull, ['n-2'], [{'n': 6}, {'n': 9}])


# ------------------------------------------------------------ Monte Carlo

def integrate(C):
    def fn(v, w):
        n = v.shape[0]
        return util.mc_integrate(None, n, lambda z: z, lambda key, count: (v, w), True), \
            util.mc_integrate(None, n, lambda z: z, lambda key, count: (v, w))

    def post(out, a, P):
        v, w = a
        n = v.shape[0]
        (m, var), m2 = out
        mean = P.sum(n, lambda k: v.at(k) * w.at(k)) / P.num(n)
        sq = P.sum(n, lambda k: (v.at(k) * w.at(k)) * (v.at(k) * w.at(k))) / P.num(n)
        P.eq('mean', m.at(), mean)
        P.eq('mean alone', m2.at(), mean)
        P.eq('variance', var.at(), (sq - mean * mean) / P.num(n))
    allsize.run(C, 'cyjax.util.mc_integrate', 'scalar integrand', fn, [Arr('v', 'n', kind='r'), Arr('w', 'n', kind='r')], post, ['n-1'],
                [{'n': 9}, {'n': 40}])

    def fnv(v, w):
        n = v.shape[0]
        return util.mc_integrate(None, n, lambda z: z, lambda key, count: (v, w[:, None]), True)

    def postv(out, a, P):
        v, w = a
        n, m = v.shape
        P.shape('shapes', [*out[0].shape, *out[1].shape], [m, m])
        i = P.index('i', m)
        if i is None:
            return
        f = lambda k: v.at(k, i) * w.at(k)
        mean = P.sum(n, f) / P.num(n)
        P.eq('mean', out[0].at(i), mean)
        P.eq('variance', out[1].at(i), (P.sum(n, lambda k: f(k) * f(k)) / P.num(n) - mean * mean) / P.num(n))
    allsize.run(C, 'cyjax.util.mc_integrate', 'vector integrand', fnv, [Arr('v', 'n', 'm', kind='r'), Arr('w', 'n', kind='r')], postv, ['n-1'],
                [{'n': 9, 'm': 4}])


def any_sample(out):
    """A sampler of which nothing is known but that its results depend on the key only."""
    def sample(key, n):
        return opaque_call('drawn', [((n, *s), d) for s, d in out], key)
    return sample


def batches(C):
    """Integration in batches: any number of batches of any size."""
    F = 'cyjax.util.mc_integrate_batched'
    for label, dims, kind in (('scalar integrand', (), float), ('complex integrand', (), complex)):
        sample = any_sample([(dims, kind), (dims, float)])

        def fn(key, b, n):
            return util.mc_integrate_batched(key, b, n, lambda z: z, sample, True), util.mc_integrate_batched(key, b, n, lambda z: z, sample, False)

        def post(out, a, P):
            _, b, n = a
            (m, var), m2 = out
            z, w = P.drawn(b, 0), P.drawn(b, 1)
            v = lambda i, k: z(i, k) * w(i, k)
            total = P.num(b) * P.num(n)
            mean = P.sum(b, lambda i: P.sum(n, lambda k: v(i, k))) / total
            sq = P.sum(b, lambda i: P.sum(n, lambda k: v(i, k) * v(i, k))) / total
            P.eq('mean', m.at(), mean)
            P.eq('mean alone', m2.at(), mean)
            P.eq('variance', var.at(), (sq - mean * mean) / total)
        allsize.run(C, F, label, fn, [Key('key'), Size('b'), Size('n')], post, ['n-1', 'b-1'], lib=True)

    def fnv(key, b, n, m):
        sample = lambda key, n: opaque_call('drawn', [((n, m), float), ((n, 1), float)], key)
        return util.mc_integrate_batched(key, b, n, lambda z: z, sample, True)

    def postv(out, a, P):
        _, b, n, m = a
        z, w = P.drawn(b, 0), P.drawn(b, 1)
        P.shape('shapes', [*out[0].shape, *out[1].shape], [m, m])
        j = P.index('j', m)
        if j is None:
            return
        v = lambda i, k: z(i, k, j) * w(i, k, 0)
        total = P.num(b) * P.num(n)
        mean = P.sum(b, lambda i: P.sum(n, lambda k: v(i, k))) / total
        sq = P.sum(b, lambda i: P.sum(n, lambda k: v(i, k) * v(i, k))) / total
        P.eq('mean', out[0].at(j), mean)
        P.eq('variance', out[1].at(j), (sq - mean * mean) / total)
    allsize.run(C, F, 'vector integrand', fnv, [Key('key'), Size('b'), Size('n'), Size('m')], postv, ['n-1', 'b-1'], lib=True)


# ------------------------------------------------------------ loss

class Given:
    """Stands for the metric by the contract of eta: any values."""

    def __init__(self, eta):
        self.eta = eta


def loss(C):
    def fn(e, w):
        n = e.shape[0]
        sample = jnp.zeros(1, complex), jnp.zeros((n, 2), complex), jnp.zeros((n,), int), w
        return ml.variance_eta_loss(jnp.eye(2), sample, Given(lambda h, zs, params=None, patch=None: e))

    def post(out, a, P):
        e, w = a
        n = e.shape[0]
        re = lambda k: e.at(k).real
        m = P.sum(n, lambda k: w.at(k) * re(k)) / P.sum(n, lambda k: w.at(k))

        def q(k):
            x = re(k) / m - 1
            return w.at(k) * x * x

        def pen(k):
            x = P.negative_part(re(k))
            return P.log(1 + x * x)
        P.shape('shape', out.shape, [])
        P.eq('loss', out.at(), (P.sum(n, q) + P.sum(n, pen)) / P.num(n))
    allsize.run(C, 'cyjax.ml.variance_eta_loss', 'any number of values', fn, [Arr('e', 'n'), Arr('w', 'n', kind='r', sign='+')], post, ['n-1'],
                [{'n': 9}, {'n': 40}], gen=lambda rng, env: {'e': rng.normal(size=env['n']) + .7 + 1j * rng.normal(size=env['n'])})


# ------------------------------------------------------------ Donaldson's algorithm

class AnySections(LBSections):
    """Sections of which nothing is known but that they depend on the point and the patch."""

    def __init__(self, N):
        super().__init__(1)
        self.N = N

    @property
    def size(self):
        return self.N

    def __call__(self, zs, patch, conj=False, **kwargs):
        n = zs.shape[0]
        s = opaque_call('sections', [((n, self.N), complex)], zs, patch)[0]
        return s


@allsize.rule('sections')
def _r_sections(M, args, static, out):
    z, patch = args
    (n, N), _ = out[0]

    def f(idx):
        row = allsize.LArr(z.shape[1:], lambda i: z.at(idx[0], *i), 'c')
        at = (*allsize.probe(M, row), M.number(patch.at(idx[0])), idx[1].frac())
        return alg.Frac.atom(alg.SPACE.fn('section', at))
    return [allsize.LArr([allsize.dim(n), allsize.dim(N)], f, 'c')]


@allsize.rule('of_point')
def _r_of_point(M, args, static, out):
    z, patch, *more = args
    shape, dtype = out[0]
    return [allsize.LArr([allsize.dim(d) for d in shape],
                         lambda idx: of_point(M, static['what'], lambda i: z.at(idx[0], *i), z.shape[1:], patch.at(idx[0]), more, idx[1:]),
                         dtype.kind)]


def of_point(M, what, z, shape, patch, more=(), idx=()):
    at = (*allsize.probe(M, allsize.LArr(shape, z, 'c')), M.number(patch), *(x for m in more for x in allsize.probe(M, m)), *(i.frac() for i in idx))
    return alg.Frac.atom(alg.SPACE.fn(what, at, real=what != 'gradient'))


class AnyVariety:
    """Sampling by its contract: points, patches and weights depending on the key.
    Gradients and weights are functions of point and patch."""

    def __init__(self, dim):
        self.dim = dim
        self.dim_projective = dim

    def sample_intersect(self, key, params, count, affine=False, weights=False):
        if not affine:
            raise alg.Unsupported('kind of sample')
        if not weights:
            return tuple(opaque_call('drawn', [((count, self.dim), complex), ((count,), int)], key))
        z, patch, w = opaque_call('drawn', [((count, self.dim), complex), ((count,), int), ((count,), float)], key)
        return (z, patch), w

    def grad_defining(self, zs, params, patch=None):
        return opaque_call('of_point', [(zs.shape, complex)], zs, patch, what='gradient')[0]

    def sample_intersect_weights(self, zs, params, patch, dependent=None):
        return opaque_call('of_point', [(zs.shape[:1], float)], zs, patch, what='weight')[0]


class AnyMetric(AlgebraicMetric):
    """Eta by its contract: a real function of h, the point and the patch, for any choice of dependent coordinate."""

    def eta(self, h, zs, params, patch=None, dependent=None, grad_def=None):
        return opaque_call('of_point', [(zs.shape[:1], float)], zs, patch, h, what='eta')[0]


def sigma(C):
    def fn(key, h, d, n):
        return AnyMetric(AnyVariety(d), AnySections(h.shape[0])).sigma_accuracy(key, None, h, n)

    def post(out, a, P):
        _, h, d, n = a
        z, patch = P.drawn(None, 0), P.drawn(None, 1)

        def val(what, k, *more):
            return of_point(P.M, what, lambda i: z(k, *i), [d], patch(k), more)
        w, eta = (lambda k: val('weight', k)), (lambda k: val('eta', k, h))
        v_cy = P.sum(n, w) / P.num(n)
        v_k = P.sum(n, lambda k: eta(k) * w(k)) / P.num(n)
        P.shape('shape', out.shape, [])
        P.eq('sigma', out.at(), P.sum(n, lambda k: P.abs(1 - eta(k) * v_cy / v_k) * w(k)) / P.num(n) / v_cy)
    allsize.run(C, 'AlgebraicMetric.sigma_accuracy', 'any variety, any number of points', fn,
                [Key('key'), Arr('h', 'N', 'N'), Size('d'), Size('n')], post, ['n-1', 'N-1', 'd-1'], lib=True)


class AnyPoints:
    """Homogeneous sample with weights depending on the key."""

    def __init__(self, dim):
        self.dim = dim

    def sample_intersect(self, key, params, count, affine=False, weights=False):
        if affine or not weights:
            raise alg.Unsupported('kind of sample')
        return tuple(opaque_call('drawn', [((count, self.dim), complex), ((count,), float)], key))


def volume(C):
    def fn(key, d, b, n):
        return VarietySingle.compute_vol(AnyPoints(d), key, None, b, n, True), VarietySingle.compute_vol(AnyPoints(d), key, None, b, n)

    def post(out, a, P):
        _, d, b, n = a
        (m, var), m2 = out
        w = P.drawn(b, 1)
        total = P.num(b) * P.num(n)
        mean = P.sum(b, lambda i: P.sum(n, lambda k: w(i, k))) / total
        P.eq('mean', m.at(), mean)
        P.eq('mean alone', m2.at(), mean)
        P.eq('variance', var.at(), (P.sum(b, lambda i: P.sum(n, lambda k: w(i, k) * w(i, k))) / total - mean * mean) / total)
    allsize.run(C, 'VarietySingle.compute_vol', 'any variety and batches', fn, [Key('key'), Size('d'), Size('b'), Size('n')], post,
                ['n-1', 'b-1', 'd-1'], lib=True)


def donaldson(C):
    def fn(key, h, vol, d, b, n):
        M = AlgebraicMetric(AnyVariety(d), AnySections(h.shape[0]))
        return M.donaldson_step(key, h, None, vol, b, n)

    def post(out, a, P):
        _, h, vol, d, b, n = a
        N = h.shape[0]
        z, patch, w = (P.drawn(b, k) for k in range(3))

        def s(i, k, j):
            row = allsize.LArr([d], lambda x: z(i, k, *x), 'c')
            return alg.Frac.atom(alg.SPACE.fn('section', (*allsize.probe(P.M, row), patch(i, k), allsize.Lin.of(j).frac())))
        m, r = P.inverted()
        P.shape('shapes', [*m.shape, *out.shape], [N] * 4)
        x, y = P.index('x', N), P.index('y', N)

        def term(i, k):
            den = P.sum(N, lambda p: P.sum(N, lambda q: s(i, k, p) * (h.at(p, q) + h.at(q, p).conjugate()) / 2 * s(i, k, q).conjugate()))
            return w(i, k) * s(i, k, x) * s(i, k, y).conjugate() / den
        want = P.sum(b, lambda i: P.sum(n, lambda k: term(i, k))) * P.num(N) / (vol.at() * P.num(b) * P.num(n))
        # (k T)^-1 = T^-1/k and the inverse of the transpose is the transposed inverse
        factors = [P.num(1)]
        for f in (vol.at() / P.num(N), P.num(b), P.num(n)):
            factors += [k * f for k in factors]
        k, (i, j) = next(((k, o) for k in factors for o in ((x, y), (y, x)) if (m.at(*o) - want * k).is_zero()), (P.num(1), (x, y)))
        P.eq('inverted matrix', m.at(i, j), want * k)
        P.eq('inverted matrix Hermitian', m.at(x, y), m.at(y, x).conjugate())
        P.eq('result', out.at(x, y), r.at(j, i) * k)
    allsize.run(C, 'AlgebraicMetric.donaldson_step', 'any variety, sections, batches', fn,
                [Key('key'), Arr('h', 'N', 'N'), Arr('vol', kind='r', sign='+'), Size('d'), Size('b'), Size('n')], post,
                ['n-1', 'b-1', 'N-1', 'd-1'], lib=True)


# ------------------------------------------------------------ random generators

class Draws:
    """Recognises values as draws of the underlying generators, each used once."""

    def __init__(self, P, binders):
        self.P, self.binders = P, binders
        self.used = []

    def _elements(self, x, what):
        out = []
        todo, seen = sorted(alg._all_atoms(x)), set()
        while todo:
            a = todo.pop(0)
            if a in seen:
                continue
            seen.add(a)
            at = alg.SPACE.atoms[a]
            if at.kind == 'fn':
                todo += [b for y in at.arg[1] if isinstance(y, alg.Frac) for b in sorted(alg._all_atoms(y))]
            elif at.kind == 'sqrt':
                todo += sorted(alg._all_atoms(at.arg))
            if at.kind not in ('sqrt', 'fn') and at.arg and at.arg[0] == 'elem' and at.arg[1].startswith(what + '<'):
                out.append((alg.Frac.atom(a), at.arg[1], at.arg[2]))
        return out

    def take(self, name, x, what, form):
        """form(x, u) for one draw u, which belongs to this entry of the result only."""
        for u, arr, idx in self._elements(x, what):
            if form(u) and self._own(arr, idx):
                self.used.append((arr, idx))
                self.P.results.append((name, True, ''))
                return u
        self.P.results.append((name, False, f'{str(x)[:200]} is not of the expected form'))
        raise alg.Unsupported(f'{name}: form of {str(x)[:200]}')

    def _own(self, arr, idx):
        M = self.P.M
        for b in self.binders:
            if not any(i.coeff(b) in (1, -1) and i.syms() & set(self.binders) == {b} for i in idx):
                return False
        return all(other != arr or self._apart(idx, jdx, self.binders) for other, jdx in self.used)

    def _apart(self, idx, jdx, binders):
        """Different draws for every value of the quantified indices."""
        M = self.P.M
        for i, k in zip(idx, jdx):
            for s in [s for s in k.syms() if s in binders]:
                k = k.subst(s, allsize.Lin.sym(s + "'"))
                for rel, t in list(M.facts):
                    if s in t.syms():
                        M.facts.append((rel, t.subst(s, allsize.Lin.sym(s + "'"))))
            if M.entails('<', i - k) or M.entails('<', k - i):
                return True
        return False

    def apart(self, name, other):
        ok = all(a != b or self._apart(i, j, other.binders) for a, i in self.used for b, j in other.used)
        self.P.results.append((name, ok, f'{self.used} {other.used}'))

    def is_uniform(self, x):
        return any((x - u).is_zero() or (x + u - 1).is_zero() for u, _, _ in self._elements(x, 'uniform'))

    def uniform(self, name, x):
        return self.take(name, x, 'uniform', lambda u: (x - u).is_zero() or (x + u - 1).is_zero())

    def phase(self, name, x):
        def form(u):
            e = alg.exp(2 * alg.I * alg.pi() * u)
            return any(((y * y) * (y * y) - 1).is_zero() for y in (x / e, x * e))
        return self.take(name, x, 'uniform', form)


def two(P, out, m, n):
    P.shape('shape', out.shape, [m, n])
    i, j = P.index('i', m), P.index('j', n)
    return (None, None) if i is None or j is None else (i, j)


def generators(C):
    def components(out, a, P):
        i, j = two(P, out, *a[1:])
        if i is None:
            return
        D = Draws(P, 'ij')
        x = out.at(i, j)
        D.uniform('real part uniform on [-1,1)', (x.real + 1) / 2)
        D.uniform('imaginary part uniform on [-1,1)', (x.imag + 1) / 2)
    args = [Key('key'), Size('m'), Size('n')]
    allsize.run(C, 'cyjax.random.uniform_components', 'any shape', lambda k, m, n: random.uniform_components(k, (m, n)), args, components, lib=True)

    def unit(out, a, P):
        i, j = two(P, out, *a[1:])
        if i is None:
            return
        x = out.at(i, j)
        P.eq('modulus', x * x.conjugate(), 1)
        Draws(P, 'ij').phase('uniform angle', x)
    allsize.run(C, 'cyjax.random.uniform_angle_unit', 'any shape', lambda k, m, n: random.uniform_angle_unit(k, (m, n)), args, unit, lib=True)

    def disk(out, a, P):
        _, m, n, lo, width = a
        i, j = two(P, out, m, n)
        if i is None:
            return
        lo, hi = lo.at(), lo.at() + width.at()
        x = out.at(i, j)
        D = Draws(P, 'ij')
        m2 = x * x.conjugate()
        D.uniform('squared modulus uniform between the squared radii', (m2 - lo * lo) / (hi * hi - lo * lo))
        D.phase('uniform angle', x / m2.sqrt())
    allsize.run(C, 'cyjax.random.uniform_angle', 'any shape', lambda k, m, n, lo, w: random.uniform_angle(k, (m, n), lo, lo + w),
                args + [Arr('lo', kind='r', sign='+'), Arr('width', kind='r', sign='+')], disk, lib=True)

    for name, f, real in (('real_sphere', lambda k, m, n: random.real_sphere(k, (m, n)), True),
                          ('complex_sphere', lambda k, m, n: random.complex_sphere(k, (m, n)), False),
                          ('uniform_projective', lambda k, m, n: random.uniform_projective(k, m, n, affine=False), False)):
        def sphere(out, a, P):
            _, m, n = a
            if name == 'uniform_projective':
                n = n + 1
            i, j = two(P, out, m, n)
            if i is None:
                return
            P.eq('norm', P.sum(n, lambda k: out.at(i, k) * out.at(i, k).conjugate()), 1)
            D = Draws(P, 'ij')
            x = out.at(i, j)
            norm = []
            for part, nm in ((x, 'entry'),) if real else ((x.real, 'real part'), (x.imag, 'imaginary part')):
                def form(g):
                    s = (g / part) * (g / part)
                    return not s.is_zero() and 'j' not in allsize.frac_syms(s)
                g = D.take(f'{nm} is a Gaussian draw times a factor common to the point', part, 'normal', form)
                norm.append((g / part) * (g / part))
            for v in norm[1:]:
                P.eq('same factor for both parts', v, norm[0])
        allsize.run(C, f'cyjax.random.{name}', 'any shape' if name != 'uniform_projective' else 'any number and dimension, homogeneous', f, args, sphere,
                    ['m-1', 'n-1'], lib=True)


def overlap(C):
    """|z_o| = s^(2u-1), |z_j|^2 = u_j (s min(1, |z_o|))^2 and uniform angles, all draws distinct (see C21)."""
    def fn(key, m, n, this, other, q):
        return random.projective_overlap(key, m, n, this, other, 1 + q)

    def post(out, a, P):
        _, m, n, this, other, q = a
        if P.equal(this, other):
            return
        P.shape('shape', out.shape, [m, n])
        o = other if P.lt(other, this) else other - 1
        i = P.index('i', m)
        if i is None:
            return
        s = 1 + q.at()
        D = Draws(P, 'i')
        x = out.at(i, o)
        sq = x * x.conjugate()

        def radius(u):
            r = alg.exp(alg.log(s) * (2 * u - 1))
            return (sq - r * r).is_zero()
        u = D.take('modulus of the coordinate of the other patch', sq, 'uniform', radius)
        rad = alg.exp(alg.log(s) * (2 * u - 1))
        D.phase('its angle', x / rad)
        j = P.index('j', n)
        if j is None or P.equal(j, o):
            return
        P.lt(j, o)
        E = Draws(P, 'ij')
        x = out.at(i, j)
        sq = x * x.conjugate()
        top = next((t for t in (s * rad, s) if E.is_uniform(sq / (t * t))), None)
        if top is None:
            raise alg.Unsupported('bound of the moduli')
        for t in (s * rad, s):
            P.le('bound of the moduli is the smaller one', top, t)
        v = E.uniform('squared modulus', sq / (top * top))
        E.phase('angle', x / (top * v.sqrt()))
        E.apart('draws of the coordinates', D)
    allsize.run(C, 'cyjax.random.projective_overlap', 'any number, dimension and pair of patches', fn,
                [Key('key'), Size('m'), Size('n'), Index('this', 0, 'n+1'), Index('other', 0, 'n+1'), Arr('q', kind='r', sign='+')], post,
                ['m-1', 'n-1'], lib=True)


def affine_points(C):
    """With the same key: the affine form in the best patch of the points of the sphere."""
    def post(out, a, P):
        _, m, n = a
        (zs, p), h = out
        P.shape('shapes', [*zs.shape, *p.shape], [m, n, m])
        i = P.index('i', m)
        if i is None:
            return
        p = p.at(i)
        j = P.index('j', n)
        if j is not None:
            row = Row(h, i)
            P.eq('coordinate', zs.at(i, j), skip(P, row, p)(j) / h.at(i, p))
            P.le('best patch', cc(skip(P, row, p)(j)), cc(h.at(i, p)))
    allsize.run(C, 'cyjax.random.uniform_projective', 'any number and dimension, affine',
                lambda k, m, n: (random.uniform_projective(k, m, n), random.uniform_projective(k, m, n, affine=False)),
                [Key('key'), Size('m'), Size('n')], post, ['m-1', 'n-1'], lib=True)
