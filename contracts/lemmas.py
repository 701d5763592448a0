"""Contracts of functions that other functions call.

Each contract has a specification rule, used in place of the body when a caller
is verified, and contract instances (cases) that verify the body.  A check only
uses a contract for callers after discharging it in the same run; a contract
that is not discharged is not used (its body is traced through instead)."""
from __future__ import annotations

import jax
import jax.numpy as jnp
import numpy as np

import cyjax
from cyjax import util, projective, differential, random

from cjv import alg
from cjv.core import Case
from cjv.extract import Sym, opaque, opaque_call, key_term
from cjv.interp import to_obj

MAXN = 6      # largest size at which data-movement contracts are instantiated


# ------------------------------------------------------------ specifications

def spec_pop(arr, index):
    i = int(index)
    return arr[i], np.delete(arr, i, axis=0)


def spec_insert_1d(arr, val, index):
    """val is placed at `index` of the result (negative: its last entry is)."""
    val = np.atleast_1d(val)
    i = int(index)
    n, m = len(arr), len(val)
    pos = i if i >= 0 else n + m + i - (m - 1)
    return np.concatenate([arr[:pos], val, arr[pos:]])


def spec_insert_col(mat, col, index):
    if col.ndim == 1:
        col = col.reshape(-1, 1)
    i = int(index)
    n, m = mat.shape[1], col.shape[1]
    pos = i if i >= 0 else n + m + i - (m - 1)
    return np.concatenate([mat[:, :pos], col, mat[:, pos:]], axis=1)


def spec_fs_metric(z, zc):
    n = z.shape[-1]
    s = 1 + sum(z[k] * zc[k] for k in range(n))
    out = np.empty((n, n), dtype=np.result_type(z, zc) if z.dtype != object else object)
    for i in range(n):
        for j in range(n):
            out[i, j] = (s if i == j else 0) / s ** 2 - zc[i] * z[j] / s ** 2
    return out


def spec_jacobian(grad, dep):
    n, d = len(grad), int(dep)
    ind = [k for k in range(n) if k != d]
    out = np.zeros((n - 1, n), dtype=grad.dtype)
    if out.dtype == object:
        out = to_obj(np.zeros((n - 1, n)))
    for r, i in enumerate(ind):
        out[r, i] = out[r, i] + 1
        out[r, d] = -grad[i] / grad[d]
    return out


def spec_induced(metric, grad, dep, grad_c=None):
    j = spec_jacobian(grad, dep)
    jc = np.conj(j) if grad_c is None else spec_jacobian(grad_c, dep)
    return j @ metric @ jc.T


# ------------------------------------------------------------ rules and stubs

@opaque('c_pop')
def _r_pop(it, args, static):
    a, i = args
    return list(spec_pop(a, i))


@opaque('c_insert_1d')
def _r_ins(it, args, static):
    a, v, i = args
    if a.dtype == object or v.dtype == object:
        a, v = to_obj(a), to_obj(v)
    return [spec_insert_1d(a, v, i)]


@opaque('c_insert_col')
def _r_col(it, args, static):
    a, v, i = args
    if a.dtype == object or v.dtype == object:
        a, v = to_obj(a), to_obj(v)
    return [spec_insert_col(a, v, i)]


@opaque('c_fs_metric')
def _r_fs(it, args, static):
    z, zc = map(to_obj, args)
    for_den = 1 + sum(z[k] * zc[k] for k in range(len(z)))
    it.note_den(for_den)
    return [spec_fs_metric(z, zc)]


@opaque('c_jacobian')
def _r_jac(it, args, static):
    g = to_obj(args[0])
    it.note_den(g[int(args[1])])
    return [spec_jacobian(g, args[1])]


@opaque('c_complex_sphere')
def _r_sphere(it, args, static):
    """Some point of the unit sphere, a function of the key and the shape."""
    shape = static['shape']
    tag = ('sphere', key_term(args[0]), shape)
    if tag not in it.ctx.draws:
        name = f'sphere{len(it.ctx.draws)}'
        out = np.empty(shape, dtype=object)
        for idx in np.ndindex(*shape):
            out[idx] = alg.Frac.atom(alg.SPACE.cplx(name + ''.join(f'[{i}]' for i in idx)))
        it.ctx.draws[tag] = out
    return [it.ctx.draws[tag]]


def stub_complex_sphere(key, shape):
    shape = tuple(int(s) for s in shape)
    if not shape:
        return ORIG['complex_sphere'](key, shape)
    return opaque_call('c_complex_sphere', [(shape, np.complex128)], key, shape=shape)[0]


def stub_pop(arr, index):
    arr = jnp.asarray(arr)
    if arr.ndim < 1 or not 1 <= arr.shape[0] <= MAXN or jnp.ndim(index) != 0:
        return ORIG['pop'](arr, index)
    return tuple(opaque_call('c_pop', [(arr.shape[1:], arr.dtype), ((arr.shape[0] - 1, *arr.shape[1:]), arr.dtype)], arr, index))


def stub_insert_1d(arr, val, index):
    arr, val = jnp.asarray(arr), jnp.atleast_1d(val)
    if arr.ndim != 1 or val.ndim != 1 or arr.shape[0] > MAXN or val.shape[0] != 1:
        return ORIG['insert_1d'](arr, val, index)
    dt = jnp.result_type(arr, val)
    return opaque_call('c_insert_1d', [((arr.shape[0] + 1,), dt)], arr, val, index)[0]


def stub_insert_col(mat, col, index):
    mat, col = jnp.asarray(mat), jnp.asarray(col)
    if mat.ndim != 2 or col.ndim != 1 or max(mat.shape) > MAXN:
        return ORIG['insert_col'](mat, col, index)
    dt = jnp.result_type(mat, col)
    return opaque_call('c_insert_col', [((mat.shape[0], mat.shape[1] + 1), dt)], mat, col, index)[0]


def stub_fs_metric(zs, zs_c=None):
    zs = jnp.atleast_1d(zs)
    if zs.shape[-1] > 4:
        return ORIG['fs_metric'](zs, zs_c)
    zs_c = jnp.conj(zs) if zs_c is None else jnp.atleast_1d(zs_c)
    n = zs.shape[-1]
    f = lambda a, b: opaque_call('c_fs_metric', [((n, n), jnp.result_type(a, b))], a, b)[0]
    for _ in range(zs.ndim - 1):
        f = jax.vmap(f)
    return f(zs, zs_c)


def stub_jacobian(grad_def, dependent):
    from jax_autovmap import auto_vmap
    grad_def = jnp.asarray(grad_def)
    n = grad_def.shape[-1]
    if n > 5:
        return ORIG['jacobian_embed'](grad_def, dependent)

    @auto_vmap(grad_def=1, dependent=0)
    def f(grad_def, dependent):
        return opaque_call('c_jacobian', [((n - 1, n), grad_def.dtype)], grad_def, dependent)[0]
    return f(grad_def, dependent)


ORIG = {'pop': util.pop, 'insert_1d': util.insert_1d, 'insert_col': util.insert_col,
        'fs_metric': projective.fs_metric, 'jacobian_embed': differential.jacobian_embed,
        'complex_sphere': random.complex_sphere}
STUB = {'pop': stub_pop, 'insert_1d': stub_insert_1d, 'insert_col': stub_insert_col,
        'fs_metric': stub_fs_metric, 'jacobian_embed': stub_jacobian,
        'complex_sphere': stub_complex_sphere}


# ------------------------------------------------------------ contract instances

def cases_pop(C, uses):
    def post(out, a, P):
        v, r = out
        ev, er = spec_pop(a[0], a[1])
        P.eq('element', v, ev)
        P.eq('rest', r, er)
    for n in range(1, MAXN + 1):
        for i in range(n):
            yield Case('cyjax.util.pop', f'n={n} index={i}', util.pop, (Sym('a', (n,)), i), post, scope=f'n={n}')
    for n, m in [(2, 2), (3, 2), (3, 6)]:
        for i in range(n):
            yield Case('cyjax.util.pop', f'shape={n}x{m} index={i}', util.pop, (Sym('a', (n, m)), i), post, scope=f'n={n}x{m}')


def cases_insert_1d(C, uses):
    def post(out, a, P):
        P.eq('out', out, spec_insert_1d(*a))
    for n in range(0, MAXN + 1):
        for i in range(-(n + 1), n + 1):
            yield Case('cyjax.util.insert_1d', f'n={n} index={i}', util.insert_1d,
                       (Sym('a', (n,)), Sym('v', (1,)), i), post, scope=f'n={n}')


def cases_insert_col(C, uses):
    def post(out, a, P):
        P.eq('out', out, spec_insert_col(*a))
    for r, n in [(1, 1), (2, 2), (2, 3), (3, 3), (4, 4), (1, 3)]:
        for i in range(-(n + 1), n + 1):
            yield Case('cyjax.util.insert_col', f'mat={r}x{n} index={i}', util.insert_col,
                       (Sym('a', (r, n)), Sym('v', (r,)), i), post, scope=f'{r}x{n}')


def cases_fs_metric(C, uses):
    def post(out, a, P):
        z = a[0]
        zc = a[1] if len(a) > 1 else np.conj(z)
        sh = z.shape[:-1]
        for k in np.ndindex(*sh):
            P.eq(f'g{list(k)}', out[k], spec_fs_metric(z[k], zc[k]))
        P.same('shape', out.shape, (*sh, z.shape[-1], z.shape[-1]))
    for n in range(1, 5):
        yield Case('cyjax.fs_metric', f'n={n}', projective.fs_metric, (Sym('z', (n,)),), post, scope=f'n={n}')
        yield Case('cyjax.fs_metric', f'n={n} conjugate given', projective.fs_metric, (Sym('z', (n,)), Sym('w', (n,))), post, scope=f'n={n}')
    yield Case('cyjax.fs_metric', 'batch 2x1, n=2', projective.fs_metric, (Sym('z', (2, 1, 2)),), post, scope='batch (2,1)')
    yield Case('cyjax.fs_metric', 'batch 2, n=3 conjugate given', projective.fs_metric,
               (Sym('z', (2, 3)), Sym('w', (2, 3))), post, scope='batch (2,)')


def cases_jacobian(C, uses):
    def post(out, a, P):
        P.eq('J', out, spec_jacobian(*a))
    rep = uses('pop', 'insert_col')
    for n in range(2, 6):
        for d in range(n):
            yield Case('cyjax.jacobian_embed', f'n={n} dependent={d}', differential.jacobian_embed,
                       (Sym('G', (n,)), d), post, scope=f'n={n}', replace=rep)


def cases_sphere(C, uses):
    def post(out, a, P):
        sh = a[1]
        P.same('shape', out.shape, sh)
        for k in np.ndindex(*sh[:-1]):
            P.eq(f'norm{list(k)}', sum(out[k][i] * np.conj(out[k][i]) for i in range(sh[-1])), 1)
    for sh in [(1,), (2,), (3,), (5,), (2, 3), (2, 1, 3), (2, 2, 4), (2, 1, 5)]:
        yield Case('cyjax.random.complex_sphere', f'shape={sh}', lambda k, s: random.complex_sphere(k, sh),
                   (Sym('key', (2,), kind='k'), sh), post, scope=f'shape {sh}')


CASES = {'pop': cases_pop, 'insert_1d': cases_insert_1d, 'insert_col': cases_insert_col,
         'fs_metric': cases_fs_metric, 'jacobian_embed': cases_jacobian,
         'complex_sphere': cases_sphere}


class Lemmas:
    def __init__(self, C):
        self.C = C
        self.status = {}

    def __call__(self, *names):
        """Replacement pairs for those contracts that are discharged in this run."""
        out = []
        for n in names:
            if n not in self.status:
                self.status[n] = False
                self.status[n] = self.prove(n)
            if self.status[n]:
                out.append((ORIG[n], STUB[n]))
        return tuple(out)

    def prove(self, name):
        C = self.C
        if C.replay is not None:
            return True
        ok = True
        for case in CASES[name](C, self):
            ok = C.run_lemma(case) and ok
        return ok
