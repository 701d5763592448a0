"""Geometric objects of the algebraic ansatz for every number of sections and coordinates.

Derivatives are formal: a quantity f has atoms f_S for the sets S of directions a, b (holomorphic)
and c, d (antiholomorphic), the derivation of direction a sends f_S to f_(S with a).  The result
is then evaluated at entries of the arrays at arbitrary indices."""
import itertools

import jax.numpy as jnp

from cyjax import VarietySingle, complex_hessian
from cyjax.donaldson import AlgebraicMetric, GeometricObjects, LBSections
from cjv import alg, allsize
from cjv.allsize import Arr, Index, Size
from .geom import Jet

O = 'GeometricObjects.'
F = alg.Frac


# ------------------------------------------------------------ formal derivatives

class Formal:
    """Polynomials in formal derivatives."""

    def __init__(self, **quantities):
        """name -> directions on which the quantity depends"""
        self.q = quantities

    def atom(self, name, S=()):
        return F.atom(alg.SPACE.cplx(f'formal {name}_{"".join(sorted(S))}'))

    def d(self, x, a):
        table = {}
        for name, dirs in self.q.items():
            for r in range(len(dirs) + 1):
                for S in itertools.combinations(sorted(dirs), r):
                    if a not in S:
                        table[alg.only_atom(self.atom(name, S))] = self.atom(name, S + (a,)) if a in dirs else alg.ZERO
        return alg.derive(x, table)

    def value(self, x, **at):
        """at: name -> function of the set of directions"""
        m = {}
        for name, dirs in self.q.items():
            for r in range(len(dirs) + 1):
                for S in itertools.combinations(sorted(dirs), r):
                    k = alg.only_atom(self.atom(name, S))
                    if k in alg._all_atoms(x):
                        m[k] = at[name](''.join(S))
        return alg.rebuild(x, m)


# ------------------------------------------------------------ relation to the code

class Blank(LBSections):
    """Values of the sections are given as nodes."""

    def __init__(self, degree):
        super().__init__(degree)

    @property
    def size(self):
        raise alg.Unsupported('number of sections')

    def __call__(self, zs, patch, conj=False, **kwargs):
        raise alg.Unsupported('sections')


class Space:
    def __init__(self, n):
        self.dim_projective = n


def objects(n, k, h=None, **nodes):
    z = jnp.zeros((n,), complex)
    obj = GeometricObjects(jnp.ones((1, 1)) if h is None else h, z, None, Space(n), Blank(k), 0)
    for name, v in nodes.items():
        setattr(obj, name, v)
    return obj


def hermitian(A):
    return (A + A.T.conj()) / 2


def symmetric(B):
    """in the last two indices"""
    return (B + B.swapaxes(-1, -2)) / 2


class Her:
    def __init__(self, A):
        self.A, self.shape = A, A.shape

    def at(self, i, j):
        return (self.A.at(i, j) + self.A.at(j, i).conjugate()) / 2


class Sy:
    def __init__(self, B):
        self.B = B

    def at(self, *i):
        return (self.B.at(*i) + self.B.at(*i[:-2], i[-1], i[-2])) / 2


NAMES = {'': 'psi', 'a': 'psi_h', 'c': 'psi_a', 'ac': 'psi_ha', 'ab': 'psi_hh', 'cd': 'psi_aa', 'abc': 'psi_hha', 'abcd': 'psi_hhaa'}


def psi(C, wanted, diagonal=True):
    """psi and its derivatives from sections with their first and second derivatives."""
    def fn(A, s, s1, B, k=3):
        obj = objects(s1.shape[1], k, hermitian(A) if A.ndim == 2 else A, s=s, s_1=s1, s_2=symmetric(B))
        return [getattr(obj, NAMES[S]) for S in wanted] + [obj.kahler]

    def post(out, a, P):
        A, s, s1, B = a
        N, n = s1.shape
        H, s2 = Her(A), Sy(B)
        fm = Formal(u='ab', v='cd')
        idx = {x: P.index(x, n) for x in 'abcd'}

        def sec(i):
            return lambda S: (s.at, s1.at, s2.at)[len(S)](i, *(idx[x] for x in S))

        def anti(j):
            return lambda S: sec(j)(S).conjugate()

        def psi_of(S):
            def term(i, j, hij):
                x = fm.atom('u') * fm.atom('v')
                for d in S:
                    x = fm.d(x, d)
                return fm.value(x, u=sec(i), v=anti(j)) * hij
            if len(A.shape) == 1:
                return P.sum(N, lambda i: term(i, i, A.at(i)))
            return P.sum(N, lambda i: P.sum(N, lambda j: term(i, j, H.at(i, j))))
        for S, got in zip(wanted, out):
            P.shape(f'{NAMES[S]}: shape', got.shape, [n] * len(S))
            P.eq(NAMES[S], got.at(*(idx[x] for x in S)), psi_of(S))
        P.eq('kahler', out[-1].at(), P.log(psi_of('')) / (alg.pi() * 3))
    sizes = ['N-1', 'n-1']
    args = [Arr('s', 'N'), Arr('s1', 'N', 'n'), Arr('B', 'N', 'n', 'n')]
    allsize.run(C, O + 'psi', 'matrix h: ' + ' '.join(NAMES[S] for S in wanted), fn, [Arr('A', 'N', 'N')] + args, post, sizes)
    allsize.run(C, O + 'psi', 'diagonal h: ' + ' '.join(NAMES[S] for S in wanted), fn, [Arr('A', 'N', kind='r')] + args, post, sizes)


def log_psi(fm, S):
    p = fm.atom('p')
    x = fm.d(p, S[0]) / p
    for d in S[1:]:
        x = fm.d(x, d)
    return x


def g_proj(C, wanted):
    """Ambient metric and its derivatives from those of psi."""
    which = {'g_proj': ('ac', 'ac'), 'g_proj_h': ('bac', 'abc'), 'g_proj_a': ('dac', 'acd'), 'g_proj_ha': ('bdac', 'abcd')}

    def fn(psi, psi_h, A, B, E, G, k):
        n = psi_h.shape[0]
        ha, hh = hermitian(A), symmetric(B)
        hha = (E + E.swapaxes(0, 1)) / 2
        G = (G + G.swapaxes(0, 1)) / 2
        G = (G + G.swapaxes(2, 3)) / 2
        hhaa = (G + G.transpose((2, 3, 0, 1)).conj()) / 2
        obj = objects(n, k, psi=psi, psi_h=psi_h, psi_ha=ha, psi_hh=hh, psi_hha=hha, psi_hhaa=hhaa)
        return [getattr(obj, w) for w in wanted]

    def post(out, a, P):
        p, ph, A, B, E, G, k = a
        n = ph.shape[0]
        idx = {x: P.index(x, n) for x in 'abcd'}
        ha, hh = Her(A), Sy(B)
        e = lambda x, y, z: (E.at(x, y, z) + E.at(y, x, z)) / 2
        g0 = lambda w, x, y, z: (G.at(w, x, y, z) + G.at(x, w, y, z)) / 2
        g1 = lambda w, x, y, z: (g0(w, x, y, z) + g0(w, x, z, y)) / 2
        g2 = lambda w, x, y, z: (g1(w, x, y, z) + g1(y, z, w, x).conjugate()) / 2

        def jet(S):
            h, m = [idx[x] for x in S if x in 'ab'], [idx[x] for x in S if x in 'cd']
            if len(h) < len(m):
                return jet_of(m, h).conjugate()
            return jet_of(h, m)

        def jet_of(h, m):
            return {(0, 0): lambda: p.at(), (1, 0): lambda: ph.at(*h), (1, 1): lambda: ha.at(*h, *m), (2, 0): lambda: hh.at(*h),
                    (2, 1): lambda: e(*h, *m), (2, 2): lambda: g2(*h, *m)}[len(h), len(m)]()
        fm = Formal(p='abcd')
        for w, got in zip(wanted, out):
            order, S = which[w]
            P.shape(f'{w}: shape', got.shape, [n] * len(S))
            P.eq(w, got.at(*(idx[x] for x in order)), fm.value(log_psi(fm, S), p=jet) / (alg.pi() * k.at()))
    allsize.run(C, O + 'g_proj', 'from derivatives of psi: ' + ' '.join(wanted), fn,
                [Arr('psi', kind='r', sign='+'), Arr('psi_h', 'n'), Arr('A', 'n', 'n'), Arr('B', 'n', 'n'), Arr('E', 'n', 'n', 'n'), Arr('G', 'n', 'n', 'n', 'n'),
                 Arr('k', kind='r', sign='+')], post, ['n-1'])


def g_loc(C, wanted):
    """Metric in local coordinates and its derivatives from those of the ambient metric and the embedding."""
    which = {'g_loc': '', 'g_loc_h': 'a', 'g_loc_a': 'c', 'g_loc_ha': 'ac'}

    def fn(A, J, gh, Jh, G):
        gha = (G + G.transpose((1, 0, 3, 2)).conj()) / 2
        obj = objects(J.shape[1], 1, g_proj=hermitian(A), jac=J, g_proj_h=gh, jac_h=Jh, g_proj_ha=gha)
        return [getattr(obj, w) for w in wanted]

    def post(out, a, P):
        A, J, gh, Jh, G = a
        m, n = J.shape
        x, y = P.index('a', n), P.index('c', n)
        r, s = P.index('r', m), P.index('s', m)
        H = Her(A)
        fm = Formal(J='a', g='ac', K='c')

        def entry(S):
            f = fm.atom('J') * fm.atom('g') * fm.atom('K')
            for d in S:
                f = fm.d(f, d)

            def term(i, j):
                g = {'': lambda: H.at(i, j), 'a': lambda: gh.at(x, i, j), 'c': lambda: gh.at(y, j, i).conjugate(),
                     'ac': lambda: (G.at(x, y, i, j) + G.at(y, x, j, i).conjugate()) / 2}
                return fm.value(f, J=lambda S: Jh.at(r, i, x) if S else J.at(r, i), g=lambda S: g[S](),
                                K=lambda S: (Jh.at(s, j, y) if S else J.at(s, j)).conjugate())
            return P.sum(n, lambda i: P.sum(n, lambda j: term(i, j)))
        for w, got in zip(wanted, out):
            S = which[w]
            P.shape(f'{w}: shape', got.shape, [n] * len(S) + [m, m])
            P.eq(w, got.at(*([x] if 'a' in S else []), *([y] if 'c' in S else []), r, s), entry(S))
    allsize.run(C, O + 'g_loc', 'from ambient metric and embedding: ' + ' '.join(wanted), fn,
                [Arr('A', 'n', 'n'), Arr('J', 'm', 'n'), Arr('gh', 'n', 'n', 'n'), Arr('Jh', 'm', 'n', 'n'), Arr('G', 'n', 'n', 'n', 'n')], post, ['n-1', 'm-1'])


def ricci(C):
    """-d dbar log det g = tr(g^-1 g_a g^-1 g_b) - tr(g^-1 g_ab)."""
    C.assume("every size: Jacobi's formula d log det g = tr(g^-1 dg) and d g^-1 = - g^-1 dg g^-1 (at fixed sizes the derivative of log det is "
             'computed instead)')
    def fn(A, gh, G):
        gha = (G + G.transpose((1, 0, 3, 2)).conj()) / 2
        obj = objects(gh.shape[0], 1, g_loc=hermitian(A), g_loc_h=gh, g_loc_ha=gha)
        return obj.ricci_proj

    def post(out, a, P):
        A, gh, G = a
        n, m = gh.shape[0], gh.shape[1]
        g, v = P.inverted()
        x, y = P.index('a', n), P.index('c', n)
        i0, j0 = P.index('i0', m), P.index('j0', m)
        P.shape('shapes', [*out.shape, *g.shape], [n, n, m, m])
        P.eq('inverted matrix', g.at(i0, j0), Her(A).at(i0, j0))
        ga = lambda i, j: gh.at(x, i, j)
        gb = lambda i, j: gh.at(y, j, i).conjugate()
        gab = lambda i, j: (G.at(x, y, i, j) + G.at(y, x, j, i).conjugate()) / 2
        S = lambda f: P.sum(m, f)
        second = S(lambda i: S(lambda j: v.at(j, i) * gab(i, j)))
        first = S(lambda i: S(lambda j: S(lambda k: S(lambda l: v.at(j, i) * ga(i, k) * v.at(k, l) * gb(l, j)))))
        P.eq('ricci_proj', out.at(x, y), first - second)
    allsize.run(C, O + 'ricci_proj', 'from the derivatives of the metric', fn,
                [Arr('A', 'm', 'm'), Arr('gh', 'n', 'm', 'm'), Arr('G', 'n', 'n', 'm', 'm')], post, ['n-1', 'm-1'], lib=True)

    def fn2(R, J, A):
        obj = objects(J.shape[1], 1, ricci_proj=R, jac=J, g_loc=A)
        return obj.ricci_loc, obj.ricci_scalar

    def post2(out, a, P):
        R, J, A = a
        m, n = J.shape
        g, v = P.inverted()
        r, s = P.index('r', m), P.index('s', m)
        P.shape('shapes', [*out[0].shape, *out[1].shape], [m, m])
        P.eq('inverted matrix', g.at(r, s), A.at(r, s))
        S = lambda f: P.sum(n, lambda i: P.sum(n, lambda j: f(i, j)))
        loc = lambda r, s: S(lambda i, j: J.at(r, i) * R.at(i, j) * J.at(s, j).conjugate())
        P.eq('ricci_loc', out[0].at(r, s), loc(r, s))
        P.eq('ricci_scalar', out[1].at(), P.sum(m, lambda p: P.sum(m, lambda q: loc(p, q) * v.at(q, p))))
    allsize.run(C, O + 'ricci_loc', 'local coordinates and scalar', fn2, [Arr('R', 'n', 'n'), Arr('J', 'm', 'n'), Arr('A', 'm', 'm')], post2,
                ['n-1', 'm-1'], lib=True)


def eta(C):
    def fn(A, G, d):
        return objects(G.shape[0], 1, g_loc=A, grad_def=G, dependent=d).eta

    def post(out, a, P):
        A, G, d = a
        m = A.shape[0]
        g, v = P.determinant()
        r, s = P.index('r', m), P.index('s', m)
        P.shape('shapes', [*out.shape, *g.shape], [m, m])
        P.eq('determinant of', g.at(r, s), A.at(r, s))
        P.eq('eta', out.at(), v * G.at(d) * G.at(d).conjugate())
    allsize.run(C, O + 'eta', 'from metric and gradient', fn, [Arr('A', 'm', 'm'), Arr('G', 'n'), Index('d', 0, 'n')], post, ['n-1', 'm-1'], lib=True)


class Near(VarietySingle):
    """Hypersurface by the gradient of its polynomial up to first order around a point."""

    def __init__(self, z0, G, K):
        self.z0, self.G, self.K = z0, G, K

    @property
    def dim_projective(self):
        return self.z0.shape[0]

    def grad_defining(self, zs, params, patch=None):
        return self.G + self.K @ (zs - self.z0)


def jets(C, names):
    """Derivatives of arbitrary sections at a point."""
    def fn(s, s1, B, z):
        n = z.shape[0]
        obj = GeometricObjects(jnp.ones((1, 1)), z, None, Space(n), Jet(3, z, s, s1, symmetric(B)), 0)
        return [getattr(obj, w) for w in names]

    def post(out, a, P):
        s, s1, B, _ = a
        N, n = s1.shape
        idx = P.index('i', N), P.index('a', n), P.index('b', n)
        vals = {'s': s, 's_1': s1, 's_2': Sy(B)}
        for w, got in zip(names, out):
            v = vals[w.removesuffix('_c')]
            k = {'s': 1, 's_1': 2, 's_2': 3}[w.removesuffix('_c')]
            P.shape(f'{w}: shape', got.shape, [N, n, n][:k])
            want = v.at(*idx[:k])
            P.eq(w, got.at(*idx[:k]), want.conjugate() if w.endswith('_c') else want)
    allsize.run(C, O + 's', 'arbitrary sections: ' + ' '.join(names), fn, [Arr('s', 'N'), Arr('s1', 'N', 'n'), Arr('B', 'N', 'n', 'n'), Arr('z', 'n')],
                post, ['N-1', 'n-1'])


def embedding(C, names):
    """Embedding of an arbitrary hypersurface and its derivative."""
    def fn(z, G, K, d):
        obj = GeometricObjects(jnp.ones((1, 1)), z, None, Near(z, G, symmetric(K)), Blank(3), 0, dependent=d)
        return [getattr(obj, w) for w in names]

    def post(out, a, P):
        _, G, K, d = a
        n = G.shape[0]
        K = Sy(K)
        r, i, x = P.index('r', n - 1), P.index('i', n), P.index('a', n)
        fm = Formal(u='a', v='a')
        own = r if P.lt(r, d) else r + 1
        for w, got in zip(names, out):
            S = 'a' if w == 'jac_h' else ''
            P.shape(f'{w}: shape', got.shape, [n - 1, n] + [n] * len(S))
            f = -fm.atom('u') / fm.atom('v')
            for c in S:
                f = fm.d(f, c)
            g = lambda k: lambda S: K.at(k, x) if S else G.at(k)
            want = fm.value(f, u=g(own), v=g(d)) if P.equal(i, d) else alg.ONE if not S and P.equal(i, own) else alg.ZERO
            P.eq(w, got.at(r, i, *([x] if S else [])), want.conjugate() if w == 'jac_c' else want)
    allsize.run(C, O + 'jac', 'arbitrary hypersurface: ' + ' '.join(names), fn, [Arr('z', 'n'), Arr('G', 'n'), Arr('K', 'n', 'n'), Index('d', 0, 'n')],
                post, ['n-2'])


def metric(C):
    """The metric as a whole: arbitrary hypersurface, sections and matrix."""
    def fn(A, s, s1, B, z, G, K, d):
        M = AlgebraicMetric(Near(z, G, symmetric(K)), Jet(3, z, s, s1, symmetric(B)))
        return M.metric(hermitian(A), z, None, 0, dependent=d)

    def post(out, a, P):
        A, s, s1, B, z, G, K, d = a
        N, n = s1.shape
        g, patch, dep = out
        P.same_index('patch', patch.at(), 0)
        P.same_index('dependent', dep.at(), d)
        H = Her(A)
        S2 = lambda f: P.sum(N, lambda i: P.sum(N, lambda j: H.at(i, j) * f(i, j)))
        p = S2(lambda i, j: s.at(i) * s.at(j).conjugate())

        def amb(i, j):
            ph, pa = (S2(lambda k, l: s1.at(k, i) * s.at(l).conjugate())), (S2(lambda k, l: s.at(k) * s1.at(l, j).conjugate()))
            return (S2(lambda k, l: s1.at(k, i) * s1.at(l, j).conjugate()) / p - ph * pa / p / p) / (alg.pi() * 3)
        r, q = P.index('r', n - 1), P.index('q', n - 1)
        r, q = (x if P.lt(x, d) else x + 1 for x in (r, q))
        pos = lambda x: x if P.lt(x, d) else x - 1
        u, v = G.at(r) / G.at(d), (G.at(q) / G.at(d)).conjugate()
        P.shape('shape', g.shape, [n - 1, n - 1])
        P.eq('entry', g.at(pos(r), pos(q)), amb(r, q) - u * amb(d, q) - v * amb(r, d) + u * v * amb(d, d))
    allsize.run(C, 'AlgebraicMetric.metric', 'arbitrary hypersurface and sections', fn,
                [Arr('A', 'N', 'N'), Arr('s', 'N'), Arr('s1', 'N', 'n'), Arr('B', 'N', 'n', 'n'), Arr('z', 'n'), Arr('G', 'n'), Arr('K', 'n', 'n'),
                 Index('d', 0, 'n')], post, ['n-2', 'N-1'], seconds=200)


def hessian(C):
    def pot(z, w, M, c):
        return jnp.log(c + z @ M @ w)

    def post(order):
        def check(out, a, P):
            z, w, M, c = (a[order.index(x)] for x in 'zwMc')
            m, n = M.shape
            P.shape('shape', out.shape, [m, n])
            i, j = P.index('i', m), P.index('j', n)
            p = c.at() + P.sum(m, lambda k: P.sum(n, lambda l: z.at(k) * M.at(k, l) * w.at(l)))
            u = P.sum(n, lambda l: M.at(i, l) * w.at(l))
            v = P.sum(m, lambda k: z.at(k) * M.at(k, j))
            P.eq('entry', out.at(i, j), M.at(i, j) / p - u * v / p / p)
        return check
    args = {'z': Arr('z', 'm'), 'w': Arr('w', 'n'), 'M': Arr('M', 'm', 'n'), 'c': Arr('c')}
    for order in ('zwMc', 'wzMc', 'cMwz', 'zMcw'):
        def fn(*a):
            f = lambda *a: pot(*(a[order.index(x)] for x in 'zwMc'))
            return complex_hessian(f, order.index('z'), order.index('w'))(*a)
        allsize.run(C, 'cyjax.complex_hessian', f'logarithm of a bilinear form, argument order {order}', fn, [args[x] for x in order], post(order), ['m-1', 'n-1'])
