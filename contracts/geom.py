"""The geometric objects of the algebraic ansatz: generic jets, derivations, specifications.

The specification of every derivative node is the derivation applied to the undifferentiated
quantity.  A derivation is given by its values on atoms (sections, psi, metric entries) and
extended by the Leibniz rule (`alg.derive`), so no derivative formula is written down here.
"""
import jax
import jax.numpy as jnp
import numpy as np

from cyjax.donaldson import GeometricObjects
from cyjax.donaldson import LBSections

from cjv import alg
from cjv.alg import Frac
from cjv.extract import Sym, det, inv
from cjv.interp import to_obj


def fr(shape):
    return np.empty(shape, dtype=object)


class Shaped(Sym):
    """Generic array with index symmetries: canon(idx) -> (index, conjugated, real)."""

    def __init__(self, name, shape, canon=None, sign=None):
        super().__init__(name, shape)
        self.canon = canon or (lambda i: (i, False, False))
        self.pos = sign

    def atoms(self):
        out = fr(self.shape)
        for idx in np.ndindex(*self.shape):
            c, cj, real = self.canon(idx)
            nm = self.name + ''.join(f'[{i}]' for i in c)
            a = Frac.atom(alg.SPACE.real(nm, self.pos) if real else alg.SPACE.cplx(nm))
            out[idx] = a.conjugate() if cj else a
        return out

    def numeric(self, rng):
        base = rng.normal(size=self.shape) + 1j * rng.normal(size=self.shape)
        out = np.empty(self.shape, complex)
        for idx in np.ndindex(*self.shape):
            c, cj, real = self.canon(idx)
            v = base[c]
            out[idx] = (abs(v.real) if self.pos else v.real) if real else np.conj(v) if cj else v
        return out


def scalar(name):
    return Shaped(name, (), lambda i: (i, False, True), sign='+')


def real_vector(name, n):
    return Shaped(name, (n,), lambda i: (i, False, True))


def herm(name, n):
    return Shaped(name, (n, n), lambda i: ((i, False, i[0] == i[1]) if i[0] <= i[1] else ((i[1], i[0]), True, False)))


def symm(name, n):
    return Shaped(name, (n, n), lambda i: (tuple(sorted(i)), False, False))


def symm_first(name, n):
    return Shaped(name, (n, n, n), lambda i: (tuple(sorted(i[:2])) + i[2:], False, False))


def hhaa(name, n):
    def canon(i):
        a, b = tuple(sorted(i[:2])), tuple(sorted(i[2:]))
        return (a + b, False, a == b) if a <= b else (b + a, True, False)
    return Shaped(name, (n,) * 4, canon)


def herm4(name, n, m):
    """x[a, b, i, j] with conjugate x[b, a, j, i]."""
    def canon(x):
        a, b, i, j = x
        y = (b, a, j, i)
        return (x, False, x == y) if x <= y else (y, True, False)
    return Shaped(name, (n, n, m, m), canon)


def jet_sections(N, n):
    """s, s_1, s_2 of N sections of n coordinates."""
    return (Shaped('s', (N,)), Shaped('s1', (N, n)),
            Shaped('s2', (N, n, n), lambda i: (i[:1] + tuple(sorted(i[1:])), False, False)))


class Derivations:
    """d[c] and dbar[c], by values on atoms; an atom without a value may not be differentiated."""

    def __init__(self, n):
        self.n = n
        self.tables = [{} for _ in range(n)]

    def set(self, c, x, dx):
        if x.as_const() is None:
            self.tables[c][alg.only_atom(x)] = dx if isinstance(dx, Frac) else Frac.const(dx)

    def forbid(self, x):
        """Derivatives of these must not be needed."""
        bad = Frac.atom(alg.SPACE.cplx('no derivative given'))
        for v in to_obj(x).reshape(-1):
            for c in range(self.n):
                self.tables[c].setdefault(alg.only_atom(v), bad)

    def d(self, c, x):
        return alg.derive(x, self.tables[c])

    def dbar(self, c, x):
        return self.d(c, x.conjugate()).conjugate()


def each(f, x):
    x = to_obj(x)
    out = fr(x.shape)
    for idx in np.ndindex(*x.shape):
        out[idx] = f(x[idx])
    return out


def stack(xs, shape):
    out = fr((len(xs),) + shape)
    for k, x in enumerate(xs):
        out[k] = x if shape else to_obj(x)[()]
    return out


def d_all(D, x):
    """[c, ...] = d_c x"""
    x = to_obj(x)
    return stack([each(lambda v: D.d(c, v), x) for c in range(D.n)], x.shape)


def dbar_all(D, x):
    x = to_obj(x)
    return stack([each(lambda v: D.dbar(c, v), x) for c in range(D.n)], x.shape)


# ---------------------------------------------------------------- the specification

class Spec:
    """Everything from psi, an embedding Jacobian and derivations, lazily."""

    def __init__(self, D, k, psi=None, jac=None, g_proj=None, g_loc=None, ricci_proj=None):
        self.D, self.k = D, k
        self.given = {'psi': psi, 'jac': jac, 'g_proj': g_proj, 'g_loc': g_loc, 'ricci_proj': ricci_proj}
        self.memo = {}

    def __getitem__(self, name):
        if name not in self.memo:
            v = self.given.get(name)
            self.memo[name] = v if v is not None else getattr(self, '_' + name)()
        return self.memo[name]

    def _kahler(self):
        return alg.log(self['psi']) / (alg.pi() * self.k)

    def _psi_h(self):
        return d_all(self.D, self['psi'])

    def _psi_a(self):
        return dbar_all(self.D, self['psi'])

    def _psi_ha(self):
        return d_all(self.D, self['psi_a'])

    def _psi_hh(self):
        return d_all(self.D, self['psi_h'])

    def _psi_aa(self):
        return dbar_all(self.D, self['psi_a'])

    def _psi_hha(self):
        return d_all(self.D, self['psi_ha'])

    def _psi_hhaa(self):
        # [a, b, c, d] = d_a d_b dbar_c dbar_d psi
        return d_all(self.D, d_all(self.D, self['psi_aa']))

    def _g_proj(self):
        p = self['psi']
        return each(lambda v: v / (alg.pi() * self.k), d_all(self.D, each(lambda v: v / p, self['psi_a'])))

    def _g_proj_h(self):
        return d_all(self.D, self['g_proj'])

    def _g_proj_a(self):
        return dbar_all(self.D, self['g_proj'])

    def _g_proj_ha(self):
        return d_all(self.D, self['g_proj_a'])

    def _jac_c(self):
        return each(lambda v: v.conjugate(), self['jac'])

    def _jac_h(self):
        # [r, i, a] = d_a J_ri
        return np.moveaxis(d_all(self.D, self['jac']), 0, -1)

    def _g_loc(self):
        return self['jac'] @ self['g_proj'] @ self['jac_c'].T

    def _g_loc_h(self):
        return d_all(self.D, self['g_loc'])

    def _g_loc_a(self):
        return dbar_all(self.D, self['g_loc'])

    def _g_loc_ha(self):
        return d_all(self.D, self['g_loc_a'])

    def _det(self):
        return to_obj(det(self['g_loc']))[()]

    def _g_loc_inv(self):
        return inv(self['g_loc'])

    def _ricci_proj(self):
        t = self['det']
        return each(lambda v: -v, d_all(self.D, each(lambda v: v / t, dbar_all(self.D, t))))

    def _ricci_loc(self):
        return self['jac'] @ self['ricci_proj'] @ self['jac_c'].T

    def _ricci_scalar(self):
        return np.trace(self['ricci_loc'] @ self['g_loc_inv'])


# ---------------------------------------------------------------- relation to the code

class Jet(LBSections):
    """Sections given by their values and first and second derivatives at z0."""

    def __init__(self, degree, z0, a, b, c):
        super().__init__(degree)
        self.z0, self.jets = z0, (a, b, c)

    @property
    def size(self):
        return self.jets[0].shape[0]

    def __call__(self, zs, patch, conj=False, **kwargs):
        z0, (a, b, c) = self.z0, self.jets
        if conj:
            z0, a, b, c = (jnp.conj(x) for x in (z0, a, b, c))
        t = zs - z0
        return a + b @ t + jnp.einsum('iab,a,b->i', c, t, t) / 2


def evaluate(want, syms, args):
    """Numeric value of a specification at numeric arguments."""
    mapping = {}
    for s, v in zip(syms, args):
        v = np.asarray(v)
        at = s.atoms()
        for idx in np.ndindex(*v.shape):
            if at[idx].as_const() is None:
                mapping[alg.only_atom(at[idx])] = complex(v[idx])
    w = to_obj(want)
    out = np.empty(w.shape, complex)
    for idx in np.ndindex(*w.shape):
        out[idx] = complex(alg.substitute(w[idx], dict(mapping)))
    return out


def nodes_post(names, syms, build):
    """Postcondition: the returned nodes equal the specification built from the arguments."""
    def post(out, a, P):
        if P.symbolic:
            spec = build(*[to_obj(x) for x in a[:len(syms)]])
        else:
            spec = build(*[s.atoms() for s in syms])
        for name, got in zip(names, out):
            want = spec[name]
            P.eq(name, got, want if P.symbolic else evaluate(want, syms, a))
    return post


def psi_jets(n):
    return (scalar('psi'), Shaped('psi_h', (n,)), herm('psi_ha', n), symm('psi_hh', n), symm_first('psi_hha', n), hhaa('psi_hhaa', n))


def psi_derivations(n, psi, psi_h, psi_ha, psi_hh, psi_hha, psi_hhaa):
    D = Derivations(n)
    psi = psi[()]
    for c in range(n):
        D.set(c, psi, psi_h[c])
        for a in range(n):
            D.set(c, psi_h[a], psi_hh[a, c])
            D.set(c, psi_h[a].conjugate(), psi_ha[c, a])
            for b in range(n):
                D.set(c, psi_ha[a, b], psi_hha[c, a, b])
                D.set(c, psi_hh[a, b].conjugate(), psi_hha[a, b, c].conjugate())
                for e in range(n):
                    D.set(c, psi_hha[a, b, e].conjugate(), psi_hhaa[c, e, a, b])
    D.forbid(psi_hh), D.forbid(psi_hha)
    D.forbid([v for v in psi_hhaa.reshape(-1)])
    return D


def section_derivations(n, h, s, s1, s2):
    D = Derivations(n)
    for c in range(n):
        for i in range(len(s)):
            D.set(c, s[i], s1[i, c])
            for a in range(n):
                D.set(c, s1[i, a], s2[i, a, c])
    D.forbid(s2)
    return D


def psi_value(h, s):
    h = np.diag(h) if h.ndim == 1 else h
    out = alg.ZERO
    for i in range(len(s)):
        for j in range(len(s)):
            x = h[i, j]
            if isinstance(x, Frac):
                out = out + s[i] * x * s[j].conjugate()
    return out


def make(X, sections, h, z, par, patch, dependent=None, grad_def=None, over=()):
    obj = GeometricObjects(h, z, par, X, sections, patch, dependent=dependent, grad_def=grad_def)
    for name, v in over:
        setattr(obj, name, v)
    return obj


def pick(obj, names):
    return tuple(getattr(obj, n) for n in names)


# ---------------------------------------------------------------- numeric oracle (bounded)

def oracle(Q, rows, k, h, z, par, patch, dependent):
    """All nodes at a point by automatic differentiation of functions of (z, w = conj z)."""
    h = jnp.diag(h) if h.ndim == 1 else jnp.asarray(h)
    A = Q.affine(patch)
    rows = np.delete(np.asarray(rows), patch, axis=1)
    n = len(z)
    c = lambda v: jnp.conj(jnp.asarray(v))

    def sec(z):
        return jnp.array([jnp.prod(jnp.array([z[i] ** int(e) for i, e in enumerate(r) if e] or [1. + 0j])) for r in rows])

    def psi(z, w):
        return sec(z) @ h @ c(sec(c(w)))

    def grad(z):
        return jnp.array([A.diff(i)(z, par) + 0j for i in range(n)])

    def jac(z):
        g = grad(z)
        out = jnp.delete(jnp.eye(n, dtype=complex), dependent, axis=0)
        return out.at[:, dependent].set(-jnp.delete(g, dependent) / g[dependent])

    dz = lambda f: jax.jacfwd(f, 0, holomorphic=True)
    dw = lambda f: jax.jacfwd(f, 1, holomorphic=True)
    first = lambda x, k=1: np.moveaxis(np.asarray(x), -1, 0)
    pot = lambda z, w: jnp.log(psi(z, w)) / (jnp.pi * k)

    def g_proj(z, w):
        return dz(dw(pot))(z, w).T

    def g_loc(z, w):
        return jac(z) @ g_proj(z, w) @ c(jac(c(w))).T

    def ricci_proj(z, w):
        return -dz(dw(lambda z, w: jnp.log(jnp.linalg.det(g_loc(z, w)))))(z, w).T
    z = jnp.asarray(z, complex)
    w = jnp.conj(z)
    out = {
        's': sec(z), 's_1': dz(lambda z: sec(z))(z), 's_2': dz(dz(lambda z: sec(z)))(z),
        'psi': psi(z, w), 'psi_h': dz(psi)(z, w), 'psi_a': dw(psi)(z, w), 'psi_ha': dz(dw(psi))(z, w).T,
        'psi_hh': dz(dz(psi))(z, w), 'psi_aa': dw(dw(psi))(z, w), 'kahler': pot(z, w),
        'psi_hha': np.moveaxis(dw(dz(dz(psi)))(z, w), (0, 1, 2), (0, 1, 2)),
        'psi_hhaa': dw(dw(dz(dz(psi))))(z, w),
        'g_proj': g_proj(z, w), 'g_proj_h': first(dz(g_proj)(z, w)), 'g_proj_a': first(dw(g_proj)(z, w)),
        'grad_def': grad(z), 'jac': jac(z), 'jac_c': jac(z).conj(), 'jac_h': dz(jac)(z),
        'g_loc': g_loc(z, w), 'g_loc_h': first(dz(g_loc)(z, w)), 'g_loc_a': first(dw(g_loc)(z, w)),
        'g_proj_ha': np.transpose(dw(dz(g_proj))(z, w), (2, 3, 0, 1)),
        'g_loc_ha': np.transpose(dw(dz(g_loc))(z, w), (2, 3, 0, 1)),
    }
    J = np.asarray(jac(z))
    out['g_loc_inv'] = np.linalg.inv(np.asarray(out['g_loc']))
    out['ricci_proj'] = np.asarray(ricci_proj(z, w))
    out['ricci_loc'] = J @ out['ricci_proj'] @ J.conj().T
    out['ricci_scalar'] = np.trace(out['ricci_loc'] @ out['g_loc_inv'])
    out['det'] = np.linalg.det(np.asarray(out['g_loc']))
    out['eta'] = out['det'] * abs(out['grad_def'][dependent]) ** 2
    return {k: np.asarray(v) for k, v in out.items()}
