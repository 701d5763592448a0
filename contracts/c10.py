"""Monte Carlo weights."""
import math

import jax.numpy as jnp
import numpy as np

import cyjax
from cyjax import VarietySingle, change_chart
from cyjax.projective import hom_to_affine
from cjv.core import Case
from cjv.extract import Sym, activate, opaque, opaque_call
from cjv import alg
from cjv.interp import to_obj
from . import lemmas as L
from .c04 import is_best
from .c09 import argpar
from .common import varieties, P_, vec

F = 'VarietySingle.sample_intersect_weights'


def cc(x):
    return x * np.conj(x)


def total(xs):
    out = 0
    for x in xs:
        out = out + x
    return out


def PI(P):
    return alg.pi() if P.symbolic else np.pi


def ratio(P, z, G, vol=1, zG=None):
    """pi^m/m! vol s^(m+1) / (|G|^2 + |z.G|^2), the closed form of the volume ratio."""
    m = len(z) - 1
    s = 1 + total(cc(x) for x in z)
    zG = total(x * g for x, g in zip(z, G)) if zG is None else zG
    return vol * PI(P) ** m * s ** (m + 1) / (math.factorial(m) * (total(cc(g) for g in G) + cc(zG)))


def numerator(G, d, vol=1):
    return vol / cc(G[d])


def denominator(P, z, G, d):
    m = len(z) - 1
    g = L.spec_induced(L.spec_fs_metric(z, np.conj(z)), G, d)
    from cjv.extract import det
    v = det(to_obj(g))[()] if P.symbolic else np.linalg.det(g).real
    return math.factorial(m) / PI(P) ** m * v


@opaque('c_grad')
def _r_grad(it, args, static):
    return [grad_atoms(*args)]


def grad_atoms(z, par, patch):
    """Value of the gradient contract: some vector, a function of the arguments."""
    z, par = to_obj(z), to_obj(np.asarray(par))
    out = np.empty(z.shape, dtype=object)
    for i in range(len(z)):
        out[i] = alg.Frac.atom(alg.SPACE.fn('dQ', (i, *z, *par.reshape(-1), int(patch))))
    return out


def stub_grad(self, zs, params, patch=None):
    from jax_autovmap import auto_vmap
    if patch is None:
        raise alg.Unsupported('homogeneous gradient')

    @auto_vmap(zs=1, params=1, patch=0)
    def f(zs, params, patch):
        pp = jnp.zeros((0,)) if params is None else params
        return opaque_call('c_grad', [(zs.shape, np.complex128)], zs, pp, patch)[0]
    return f(zs, params, patch)


GRAD = ((VarietySingle, 'grad_defining', stub_grad),)


def gradient_contract(C, name, X, Q, npar):
    """grad_defining is the gradient of the defining polynomial (callee of the weights)."""
    n = len(Q.terms[0][2])
    par, tail = argpar(npar)
    ok = True
    for patch in range(n):
        A = Q.affine(patch)
        ok = C.run_lemma(Case('VarietySingle.grad_defining', f'{name}: patch {patch}',
                              lambda z, *p: X.grad_defining(z, *(p or tail), patch), (Sym('z', (n - 1,)),) + par,
                              lambda out, a, P: P.eq('gradient', out, A.grad(*a)), scope=name)) and ok
    return ok


def run(C):
    C.total = False
    vs = varieties()
    positivity(C)
    for name, (make, Q, npar) in vs.items():
        activate()
        X = make()
        formula(C, name, X, Q, npar)
        sampling(C, name, X, Q, npar)
        patches(C, name, Q, npar)
    direct(C)
    higher(C)


def formula(C, name, X, Q, npar):
    n = len(Q.terms[0][2])
    par, tail = argpar(npar)
    z = Sym('z', (n - 1,))
    vol = Sym('vol', (), kind='r', sign='+')
    rep = C.uses('pop', 'insert_col', 'fs_metric')
    modular = C.replay is None and gradient_contract(C, name, X, Q, npar)

    def case(label, fn, args, post, patch):
        """Against the contract of the gradient if it holds, else against its body."""
        A = Q.affine(patch)
        full = Case(F, label + ' (gradient inlined)' if modular else label, fn, args,
                    lambda out, a, P: post(out, a, P, A.grad(a[0], a[-1] if npar else ())), scope=name, replace=rep, pre=nonsing(A, npar))
        if not modular:
            return full

        def post_m(out, a, P):
            G = grad_atoms(a[0], a[-1] if npar else np.zeros(0), patch) if P.symbolic else A.grad(a[0], a[-1] if npar else ())
            post(out, a, P, G)
        return Case(F, label, fn, args, post_m, scope=name, replace=rep, extra=GRAD, abstract=True, alt=full, pre=nonsing(A, npar))

    for patch in range(n):
        for d in range(n - 1):
            def post(out, a, P, G):
                P.eq('weight', out, ratio(P, a[0], G, a[1]))
            C.run(case(f'{name}: patch {patch} dependent {d}',
                       lambda z, v, *p: X.sample_intersect_weights(z, *(p or tail), patch, d, v), (z, vol) + par, post, patch))

            def post_s(out, a, P, G):
                P.eq('numerator', out[0], numerator(G, d, a[1]))
                P.eq('denominator', out[1], denominator(P, a[0], G, d))
            C.run(case(f'{name}: patch {patch} dependent {d} separate',
                       lambda z, v, *p: X.sample_intersect_weights(z, *(p or tail), patch, d, v, True), (z, vol) + par, post_s, patch))

        def post_n(out, a, P, G):
            P.eq('weight', out, ratio(P, a[0], G, 1))
        C.run(case(f'{name}: patch {patch}', lambda z, *p: X.sample_intersect_weights(z, *(p or tail), patch), (z,) + par, post_n, patch))
    # batches of points, patches and dependent coordinates
    if n == 3:
        pb, tail = argpar(npar, (2,))

        def post_b(out, a, P):
            P.same('shape', out.shape, (2,))
            for k, (pt, d) in enumerate([(2, 0), (0, 1)]):
                P.eq(f'weight[{k}]', out[k], ratio(P, a[0][k], Q.affine(pt).grad(a[0][k], a[1][k] if npar else ()), 3))
        C.run(Case(F, f'{name}: batch', lambda z, *p: X.sample_intersect_weights(z, *(p or tail), np.array([2, 0]), np.array([0, 1]), 3),
                   (Sym('z', (2, n - 1)),) + pb, post_b, scope=name, replace=rep))


def positivity(C):
    """The closed form is positive for every point and non-zero gradient."""
    for m in (1, 2, 3):
        def post(out, a, P):
            P.positive('ratio', ratio(P, *a))      # whatever the value of z.G
        C.run(Case('specification of the weights', f'positive in dimension {m}', lambda z, G, v, zG: v,
                   (Sym('z', (m + 1,)), Sym('G', (m + 1,), nonzero=True), Sym('vol', (), kind='r', sign='+'), Sym('zG')), post, scope=f'dimension {m}'))


def nonsing(A, npar):
    def pre(sub):
        G = A.grad(sub['z'], sub.get('par', ()))
        return np.min(np.abs(G)) > 1e-2
    return pre


def patches(C, name, Q, npar):
    """The closed form is the same in every patch (on the variety): it equals
    |Z|^(2(m+1)) / |dQ(Z)|^2 by Euler's relation and is homogeneous of degree zero."""
    n = len(Q.terms[0][2])
    deg = sum(Q.terms[0][2])
    G_ = 'specification of the weights'
    zs = [f'Z{k}' for k in range(n)]
    ps = [f'p{k}' for k in range(npar)]
    for p in range(n):
        A = Q.affine(p)

        def euler(env):
            z = [env[f'Z{k}'] for k in range(n) if k != p]
            Z = list(z)
            Z.insert(p, 1)
            par = [env[k] for k in ps]
            lhs = total(x * g for x, g in zip(z, A.grad(vec(z, vec(z, z)), par)))
            return lhs, deg * Q(Z, par) - Q.diff(p)(Z, par)
        C.identity(G_, f'{name}: Euler relation in patch {p}', euler, zs + ps, scope=name)

        def affine(env):
            z = [env[f'Z{k}'] for k in range(n) if k != p]
            Z = list(z)
            Z.insert(p, 1)
            par = [env[k] for k in ps]
            idx = [k for k in range(n) if k != p]
            return list(A.grad(vec(z, vec(z, z)), par)), [Q.diff(k)(Z, par) for k in idx]
        C.identity(G_, f'{name}: gradient in patch {p}', affine, zs + ps, scope=name)

    def hom(env):
        par = [env[k] for k in ps]
        Z = [env[k] for k in zs]
        lz = [env['lam'] * x for x in Z]
        return [Q.diff(k)(lz, par) for k in range(n)], [env['lam'] ** (deg - 1) * Q.diff(k)(Z, par) for k in range(n)]
    C.identity(G_, f'{name}: homogeneity', hom, zs + ps + ['lam'], scope=name)
    if not name.startswith('quadric'):
        C.obligation_eval(G_, f'{name}: degree of the ratio is zero', n - 1 == deg - 1, 'not Calabi-Yau', {'n': str(n), 'degree': str(deg)})


# ------------------------------------------------------------ direct check of coordinate independence

def on_variety(A, npar, d):
    """Symbols z, par with z_d a root of the defining equation, and numbers alike."""
    n = len(A.terms[0][2])
    deg = max(p[d] for _, _, p in A.terms)

    def coeffs(z, par):
        out = []
        for e in range(deg, -1, -1):
            R = P_([(c, a, tuple(0 if i == d else x for i, x in enumerate(p))) for c, a, p in A.terms if p[d] == e])
            out.append(R(z, par) if R.terms else 0)
        return out

    class Root(Sym):
        def atoms(self):
            z = super().atoms()
            par = Sym('par', (npar,)).atoms() if npar else ()
            from cjv.extract import _o_roots

            class It:
                class ctx:
                    notes = []

                @staticmethod
                def note_den(x):
                    pass
            c = [x if isinstance(x, alg.Frac) else alg.Frac.const(x) for x in coeffs(z, par)]
            z = z.copy()
            z[d] = _o_roots(It, [np.array(c, dtype=object)], {})[0][0]
            return z

    def gen(rng):
        z = rng.normal(size=n) + 1j * rng.normal(size=n)
        par = rng.normal(size=npar) + 1j * rng.normal(size=npar)
        z[d] = np.roots([complex(x) for x in coeffs(z, par)])[0]
        return {'z': z, 'par': par}
    return Root('z', (n,)), gen


def direct(C):
    """Weights at a point of the variety in two patches, on the code itself."""
    vs = varieties()
    rep = C.uses('pop', 'insert_col', 'fs_metric')
    for name in ('Fermat(1)', 'Dwork(1)', 'Fermat(2)', 'Dwork(2)', 'Dwork(3)'):
        make, Q, npar = vs[name]
        n = len(Q.terms[0][2])
        activate()
        X = make()
        par, tail = argpar(npar)
        for p, q in [(0, 1), (n - 1, 0)]:
            z, gen = on_variety(Q.affine(p), npar, n - 2)

            def fn(z, *pp):
                w = X.sample_intersect_weights(z, *(pp or tail), p, 0)
                v = X.sample_intersect_weights(change_chart(z, p, q), *(pp or tail), q, n - 2)
                u = X.sample_intersect_weights(z, *(pp or tail), p)
                return w, v, u

            def post(out, a, P):
                P.eq('other patch', out[1], out[0])
                P.eq('best dependent coordinate', out[2], out[0])
            C.run(Case(F, f'{name}: patches {p} and {q}', fn, (z,) + par, post, scope=name, replace=rep, gen=gen,
                       symbolic=n == 3, tries=8))


def higher(C):
    """The constant factors in dimensions beyond those of the symbolic cases (numbers)."""
    for m in (4, 5):
        n = m + 2
        Q = P_([(1, (), tuple(n * (i == j) for j in range(n))) for i in range(n)])
        activate()
        X = cyjax.Fermat(m)
        for patch, d in [(0, 1), (n - 1, m), (2, None)]:
            def post(out, a, P):
                G = Q.affine(patch).grad(a[0], ())
                P.eq('weight', out[0], ratio(P, a[0], G, 1))
                if d is not None:
                    P.eq('numerator', out[1][0], numerator(G, d))
                    P.eq('denominator', out[1][1], denominator(P, a[0], G, d))

            def fn(z):
                w = X.sample_intersect_weights(z, None, patch, d)
                return (w, X.sample_intersect_weights(z, None, patch, d, 1, True)) if d is not None else (w,)
            # points with moduli near one, all gradient components of order one
            C.run(Case(F, f'dimension {m}: patch {patch} dependent {d}', fn, (Sym('z', (n - 1,)),), post, symbolic=False, tries=4,
                       gen=lambda rng: {'z': rng.uniform(.8, 1, n - 1) * np.exp(2j * np.pi * rng.uniform(size=n - 1))}, tol=1e-6))


# ------------------------------------------------------------ sampling with weights

@opaque('c_weights')
def _r_weights(it, args, static):
    zs, par, patch, vol = args
    tag = ('weights', *[x.key() for x in to_obj(zs).reshape(-1)], *[x.key() for x in to_obj(par).reshape(-1)], int(patch),
           to_obj(vol)[()].key())
    return [alg_fn(zs, par, patch, vol)]


def alg_fn(zs, par, patch, vol):
    args = (*to_obj(zs).reshape(-1), *to_obj(np.asarray(par)).reshape(-1), int(patch), to_obj(np.asarray(vol))[()])
    out = np.empty((), dtype=object)
    out[()] = alg.Frac.atom(alg.SPACE.fn('weight', args, real=True))
    return out


def stub_weights(self, zs, params, patch, dependent=None, vol=1, separate=False):
    from jax_autovmap import auto_vmap
    if separate or vol is None:
        raise alg.Unsupported('separate factors')

    @auto_vmap(zs=1, params=1, patch=0)
    def f(zs, params, patch):
        pp = jnp.zeros((0,)) if params is None else params
        return opaque_call('c_weights', [((), np.float64)], zs, pp, patch, jnp.asarray(vol, float))[0]
    return f(zs, params, patch)


def sampling(C, name, X, Q, npar):
    n = len(Q.terms[0][2])
    par, tail = argpar(npar)
    key = Sym('key', (2,), kind='k')
    rep = C.uses('complex_sphere', 'pop')
    extra = ((VarietySingle, 'sample_intersect_weights', stub_weights),)

    def spec(P, z, p, patch):
        if P.symbolic:
            return alg_fn(z, p if npar else np.zeros(0), patch, 1.)
        return ratio(P, z, Q.affine(patch).grad(z, p), 1)

    for count in (1, 2):
        def post_a(out, a, P):
            (zs, patch), w = out
            P.same('shapes', [zs.shape, patch.shape, w.shape], [(count, n - 1), (count,), (count,)])
            for k in range(count):
                P.eq(f'weight[{k}]', w[k], spec(P, zs[k], a[1] if npar else (), int(patch[k])))
        C.run(Case('VarietySingle.sample_intersect', f'{name}: affine, {count} points with weights',
                   lambda k, *p: X.sample_intersect(k, *(p or tail), count, affine=True, weights=True), (key,) + par, post_a,
                   scope=name, replace=rep, extra=extra, abstract=True))

        def post_h(out, a, P):
            zs, w = out
            P.same('shapes', [zs.shape, w.shape], [(count, n), (count,)])
            for k in range(count):
                if P.symbolic:
                    z = zs[k]
                    j = None
                    # the weight is that of the point in some patch
                    cands = [spec(P, np.delete(z, i) / z[i], a[1] if npar else (), i) for i in range(n)]
                    P.true(f'weight[{k}]', any((w[k] - c[()]).is_zero() for c in cands), 'not the weight of the point', 'normal-form')
                else:
                    j = int(np.argmax(np.abs(zs[k])))
                    z = np.delete(zs[k], j) / zs[k][j]
                    P.eq(f'weight[{k}]', w[k], spec(P, z, a[1] if npar else (), j))
        C.run(Case('VarietySingle.sample_intersect', f'{name}: homogeneous, {count} points with weights',
                   lambda k, *p: X.sample_intersect(k, *(p or tail), count, weights=True), (key,) + par, post_h,
                   scope=name, replace=rep, extra=extra, abstract=True))
