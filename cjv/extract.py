"""Extraction: trace real functions to jaxprs, with assumed contracts for the
numerical library and substituted contracts for verified callees."""
from __future__ import annotations

import contextlib
import itertools
import math
import sys
import types

import jax
import jax.numpy as jnp
import numpy as np
from jax import core as jcore
from jax._src import core as _core
from jax.interpreters import batching

from . import alg
from .alg import Frac, Unsupported, Undefined
from .interp import Interp, is_sym, to_obj, _arr, _stack

jax.config.update('jax_enable_x64', True)

# ------------------------------------------------------------ opaque primitive

opaque_p = jcore.Primitive('cjv_opaque')
opaque_p.multiple_results = True


def opaque_call(name, out, *args, **static):
    """out: list of (shape, dtype)."""
    args = [jnp.asarray(a) for a in args]
    return opaque_p.bind(
        *args, name=name, static=tuple(sorted(static.items())),
        out=tuple((tuple(s), np.dtype(d)) for s, d in out), batched=(), sizes=())


def _abstract(*avals, name, static, out, batched, sizes):
    return [jcore.ShapedArray((*sizes, *s), d) for s, d in out]


opaque_p.def_abstract_eval(_abstract)


@opaque_p.def_impl
def _impl(*args, **params):
    raise RuntimeError('opaque operation executed outside extraction')


def _batch(args, dims, *, name, static, out, batched, sizes):
    n = None
    moved, flags = [], []
    for a, d in zip(args, dims):
        if d is batching.not_mapped:
            moved.append(a)
            flags.append(False)
        else:
            n = a.shape[d]
            moved.append(jnp.moveaxis(a, d, 0))
            flags.append(True)
    # arguments batched at the new (outermost) level carry their axis first
    res = opaque_p.bind(*moved, name=name, static=static, out=out,
                        batched=(tuple(flags), *batched), sizes=(n, *sizes))
    return res, [0] * len(res)


batching.primitive_batchers[opaque_p] = _batch


# ------------------------------------------------------------ symbolic inputs

class Sym:
    """Symbolic array input."""

    def __init__(self, name, shape=(), kind='c', sign=None, nonzero=False, value=None):
        self.name = name
        self.shape = tuple(shape)
        self.kind = kind          # 'c' complex, 'r' real, 'k' random key
        self.sign = sign
        self.nonzero = nonzero
        self.value = value        # optional explicit object array

    @property
    def dtype(self):
        return {'c': np.complex128, 'r': np.float64, 'k': np.uint32}[self.kind]

    def aval(self):
        return jax.ShapeDtypeStruct(self.shape, self.dtype)

    def atoms(self):
        if self.value is not None:
            return self.value
        out = np.empty(self.shape, dtype=object)
        if self.kind == 'k':
            for idx in np.ndindex(*self.shape[:-1]):
                for c in range(2):
                    out[idx + (c,)] = KeyPart(('key', self.name, *idx), c)
            return out
        for idx in np.ndindex(*self.shape):
            nm = self.name + (''.join(f'[{i}]' for i in idx))
            if self.kind == 'c':
                a = alg.SPACE.cplx(nm)
                if self.nonzero:
                    alg.SPACE.atoms[a].nonzero = True
                    alg.SPACE.atoms[alg.SPACE.atoms[a].conj].nonzero = True
            else:
                a = alg.SPACE.real(nm, self.sign)
                if self.nonzero:
                    alg.SPACE.atoms[a].nonzero = True
            out[idx] = Frac.atom(a)
        return out

    def numeric(self, rng):
        if self.kind == 'k':
            return np.asarray(rng.integers(0, 2**32, size=self.shape, dtype=np.uint32))
        if self.kind == 'c':
            # moderate moduli, so that rounding stays far below the tolerance
            return rng.uniform(0.6, 1.5, self.shape) * np.exp(2j * np.pi * rng.random(self.shape))
        x = rng.normal(size=self.shape)
        return np.abs(x) + 0.1 if self.sign else x

    def __repr__(self):
        return f'{self.name}:{self.kind}{list(self.shape)}'


class KeyPart:
    """One word of a symbolic random key."""
    __slots__ = ('term', 'comp')

    def __init__(self, term, comp):
        self.term = term
        self.comp = comp

    def __repr__(self):
        return f'{self.term}.{self.comp}'


def key_term(arr):
    a = np.asarray(arr).reshape(-1)
    if a.size != 2:
        raise Unsupported('random key of unexpected shape')
    if isinstance(a[0], KeyPart):
        if not isinstance(a[1], KeyPart) or a[0].term != a[1].term or (a[0].comp, a[1].comp) != (0, 1):
            raise Unsupported('mixed random key words')
        return a[0].term
    if a.dtype == object:
        return ('seed', str(a[0]), str(a[1]))
    return ('seed', int(a[0]), int(a[1]))


def key_arr(term):
    out = np.empty(2, dtype=object)
    out[0], out[1] = KeyPart(term, 0), KeyPart(term, 1)
    return out


def leaves_of(tree):
    return jax.tree_util.tree_flatten(tree, is_leaf=lambda x: isinstance(x, Sym) or x is None)


def trace(fn, args, kwargs=None):
    """Trace fn(*args, **kwargs); Sym leaves are symbolic, the rest is passed as is."""
    leaves, tree = leaves_of((tuple(args), dict(kwargs or {})))
    pos = [i for i, x in enumerate(leaves) if isinstance(x, Sym)]
    outtree = []

    def call(*xs):
        ls = list(leaves)
        for i, x in zip(pos, xs):
            ls[i] = x
        a, k = jax.tree_util.tree_unflatten(tree, ls)
        out = fn(*a, **k)
        fl, ot = jax.tree_util.tree_flatten(out)
        outtree.append(ot)
        return fl
    closed = jax.make_jaxpr(call)(*[leaves[i].aval() for i in pos])
    return closed, [leaves[i] for i in pos], outtree[-1]


def fill(args, kwargs, sub):
    """Replace Sym leaves by sub[name]."""
    leaves, tree = leaves_of((tuple(args), dict(kwargs or {})))
    ls = [sub[x.name] if isinstance(x, Sym) else x for x in leaves]
    return jax.tree_util.tree_unflatten(tree, ls)


# ------------------------------------------------------------ assumed contracts

OPAQUE = {}


def opaque(name):
    def deco(f):
        OPAQUE[name] = f
        return f
    return deco


def _det(m):
    n = m.shape[-1]
    if n == 0:
        return alg.ONE
    if n == 1:
        return m[0, 0]
    out = alg.ZERO
    for j in range(n):
        if m[0, j].is_zero():
            continue
        minor = np.delete(np.delete(m, 0, 0), j, 1)
        t = m[0, j] * _det(minor)
        out = out + t if j % 2 == 0 else out - t
    return out


def det(m):
    m = np.asarray(m)
    if m.dtype != object:
        return np.linalg.det(m)
    out = np.empty(m.shape[:-2], dtype=object)
    for k in np.ndindex(*out.shape):
        out[k] = _det(m[k])
    return out


def inv(m):
    m = np.asarray(m)
    if m.dtype != object:
        return np.linalg.inv(m)
    n = m.shape[-1]
    out = np.empty(m.shape, dtype=object)
    for k in np.ndindex(*m.shape[:-2]):
        d = _det(m[k])
        for i in range(n):
            for j in range(n):
                minor = np.delete(np.delete(m[k], j, 0), i, 1)
                c = _det(minor) / d
                out[k + (i, j)] = c if (i + j) % 2 == 0 else -c
    return out


@opaque('det')
def _o_det(it, args, static):
    return [det(to_obj(args[0]))]


@opaque('inv')
def _o_inv(it, args, static):
    return [inv(to_obj(args[0]))]


@opaque('roots')
def _o_roots(it, args, static):
    """All d roots of a degree d polynomial (leading coefficient non-zero)."""
    c = to_obj(args[0])
    d = c.shape[0] - 1
    out = np.empty(d, dtype=object)
    key = tuple(x.key() for x in c)
    if d > 0:
        it.note_den(c[0])
    for k in range(d):
        kk = ('root', key, k)
        a = alg.SPACE.by_key.get(kk)
        if a is None:
            n = sum(1 for x in alg.SPACE.by_key if x[0] == 'root')
            a = alg.SPACE.cplx(f'root{n}_{k}')
            at = alg.SPACE.atoms[a]
            ct = alg.SPACE.atoms[at.conj]
            r = Frac.atom(a)
            at.red_pow = ct.red_pow = d
            at.red_to = None
            tail = alg.ZERO
            for j in range(1, d + 1):
                tail = tail - c[j] / c[0] * r ** (d - j)
            at.red_to = tail
            at.arg = ('root', c, k)
            ct.red_to = tail.conjugate()
            if d >= 1:
                alg.SPACE.reducible.add(a)
                alg.SPACE.reducible.add(at.conj)
            alg.SPACE.by_key[kk] = a
        out[k] = Frac.atom(a) if d > 1 else alg.SPACE.atoms[a].red_to
    it.ctx.notes.append(('roots', c, out))
    return [out]


@opaque('split')
def _o_split(it, args, static):
    t = key_term(args[0])
    shape = static['shape']
    out = np.empty((*shape, 2), dtype=object)
    for n, idx in enumerate(np.ndindex(*shape)):
        out[idx] = key_arr(('split', t, shape, n))
    it.ctx.keytab.setdefault('split', []).append((t, shape))
    return [out]


@opaque('fold_in')
def _o_fold(it, args, static):
    t = key_term(args[0])
    return [key_arr(('fold_in', t, str(args[1])))]


def draw(it, kind, key, shape, extra=()):
    t = key_term(key)
    tag = (kind, t, shape, extra)
    known = it.ctx.draws
    if tag not in known:
        name = f'{kind}{len(known)}'
        out = np.empty(shape, dtype=object)
        for idx in np.ndindex(*shape):
            nm = name + ''.join(f'[{i}]' for i in idx)
            out[idx] = Frac.atom(alg.SPACE.real(nm, '0+' if kind == 'u' else None))
        known[tag] = out
    return known[tag]


@opaque('uniform')
def _o_uniform(it, args, static):
    u = draw(it, 'u', args[0], static['shape'])
    lo, hi = to_obj(args[1]), to_obj(args[2])
    lo, hi = np.broadcast_to(lo, u.shape), np.broadcast_to(hi, u.shape)
    out = np.empty(u.shape, dtype=object)
    for k in np.ndindex(*u.shape):
        out[k] = lo[k] + u[k] * (hi[k] - lo[k])
    return [out]


@opaque('normal')
def _o_normal(it, args, static):
    return [draw(it, 'n', args[0], static['shape'])]


@opaque('permutation')
def _o_perm(it, args, static):
    x = args[1]
    ax = static['axis']
    n = x.shape[ax]
    t = key_term(args[0])
    perms = list(itertools.permutations(range(n)))
    if len(perms) > 24:
        raise Unsupported('permutation too long')
    j = it.ctx.decide(('perm', t, n), len(perms))
    it.ctx.notes.append(('perm', t, perms[j]))
    return [np.take(x, perms[j], axis=ax)]


def _stub_det(a):
    a = jnp.asarray(a)
    return opaque_call('det', [(a.shape[:-2], a.dtype)], a)[0]


def _stub_inv(a):
    a = jnp.asarray(a)
    return opaque_call('inv', [(a.shape, a.dtype)], a)[0]


def _stub_solve(a, b):
    a, b = jnp.asarray(a), jnp.asarray(b)
    return jnp.matmul(_stub_inv(a), b)


def _stub_slogdet(a):
    d = _stub_det(a)
    ab = jnp.abs(d)
    return d / ab, jnp.log(ab)


def _stub_roots(p, *, strip_zeros=True):
    p = jnp.asarray(p)
    d = p.shape[0] - 1
    return opaque_call('roots', [((d,), np.complex128)], p)[0]


def _size(s):
    return s if _core.is_symbolic_dim(s) else int(s)


def _stub_split(key, num=2):
    shape = (num,) if isinstance(num, (int, np.integer)) or _core.is_symbolic_dim(num) else tuple(num)
    shape = tuple(_size(s) for s in shape)
    return opaque_call('split', [((*shape, 2), np.uint32)], key, shape=shape)[0]


def _stub_fold(key, data):
    return opaque_call('fold_in', [((2,), np.uint32)], key, data)[0]


def _stub_uniform(key, shape=(), dtype=float, minval=0., maxval=1.):
    shape = tuple(_size(s) for s in shape)
    return opaque_call('uniform', [(shape, np.float64)], key,
                       jnp.asarray(minval, float), jnp.asarray(maxval, float), shape=shape)[0]


def _stub_normal(key, shape=(), dtype=float):
    shape = tuple(_size(s) for s in shape)
    x = opaque_call('normal', [(shape, np.float64)], key, shape=shape)[0]
    if np.dtype(dtype).kind == 'c':
        raise Unsupported('complex normal')
    return x


def _stub_permutation(key, x, axis=0, independent=False):
    if independent:
        raise Unsupported('independent permutation')
    x = jnp.arange(x) if isinstance(x, (int, np.integer)) else jnp.asarray(x)
    return opaque_call('permutation', [(x.shape, x.dtype)], key, x, axis=int(axis))[0]


LIB_STUBS = [
    (jnp.linalg, 'det', _stub_det), (jnp.linalg, 'inv', _stub_inv),
    (jnp.linalg, 'solve', _stub_solve), (jnp.linalg, 'slogdet', _stub_slogdet),
    (jnp, 'roots', _stub_roots),
    (jax.random, 'split', _stub_split), (jax.random, 'fold_in', _stub_fold),
    (jax.random, 'uniform', _stub_uniform), (jax.random, 'normal', _stub_normal),
    (jax.random, 'permutation', _stub_permutation),
]

ASSUMED = {
    'det': 'jnp.linalg.det(a) is the determinant (Leibniz formula)',
    'inv': 'jnp.linalg.inv(a) is adj(a)/det(a), det(a) != 0',
    'roots': 'jnp.roots(c) returns deg(c) numbers r with sum_j c_j r^(d-j) = 0 (c_0 != 0)',
    'split': 'jax.random.split is a function of key and count; distinct results are independent keys',
    'fold_in': 'jax.random.fold_in is a function of key and data',
    'uniform': 'jax.random.uniform(key, shape, lo, hi) = lo + u (hi - lo) with u a function of (key, shape), 0 <= u < 1, i.i.d. uniform',
    'normal': 'jax.random.normal(key, shape) is a function of (key, shape), i.i.d. standard normal',
    'permutation': 'jax.random.permutation(key, x, axis) applies a permutation, a function of (key, length), to the given axis',
}


def cyjax_modules():
    return [m for n, m in sorted(sys.modules.items())
            if m is not None and (n == 'cyjax' or n.startswith('cyjax.'))]


_active = {'sig': None, 'saved': []}


def activate(lib=False, replace=(), extra=()):
    """Install stubs.  replace: list of (original object, stub) swapped in every
    cyjax module namespace; extra: (owner, attribute, value).  The previous set
    is undone and JAX caches are cleared only when the set changes."""
    sig = (lib, tuple((id(a), id(b)) for a, b in replace), tuple((id(o), n, id(v)) for o, n, v in extra))
    if sig == _active['sig']:
        return
    for o, n, v in reversed(_active['saved']):
        setattr(o, n, v)
    saved = _active['saved'] = []
    _active['sig'] = sig
    _active['hold'] = (replace, extra)     # keep ids alive

    def setattr_(o, n, v):
        saved.append((o, n, getattr(o, n)))
        setattr(o, n, v)
    jax.clear_caches()
    if lib:
        for o, n, v in LIB_STUBS:
            if hasattr(o, n):
                setattr_(o, n, v)
    for orig, stub in replace:
        if orig is None:
            continue
        for m in cyjax_modules():
            for n, v in list(vars(m).items()):
                if v is orig:
                    setattr_(m, n, stub)
    for o, n, v in extra:
        setattr_(o, n, v)


@contextlib.contextmanager
def patched(lib=True, replace=(), extra=()):
    """Run a block with the given stubs (they stay installed until the next change)."""
    activate(lib, replace, extra)
    yield


def interpret(closed, syms, outtree, ctx, opaque_rules=None):
    it = Interp(ctx, {**OPAQUE, **(opaque_rules or {})})
    outs = it.run(closed, [s.atoms() for s in syms])
    outs = [_arr(o) for o in outs]
    return jax.tree_util.tree_unflatten(outtree, outs), it


# ------------------------------------------------------------ eager extraction

class _Var:
    __slots__ = ('aval',)

    def __init__(self, aval):
        self.aval = aval


class _Eqn:
    __slots__ = ('primitive', 'params', 'invars', 'outvars')

    def __init__(self, primitive, params, invars, outvars):
        self.primitive, self.params, self.invars, self.outvars = primitive, params, invars, outvars


class SymTracer(jcore.Tracer):
    __slots__ = ['val', '_aval']

    def __init__(self, trace, val, aval):
        self._trace = trace
        self.val = val
        self._aval = aval

    @property
    def aval(self):
        return self._aval

    def full_lower(self):
        if is_sym(self.val):
            return self
        return jnp.asarray(np.asarray(self.val).astype(self._aval.dtype))


class SymTrace(jcore.Trace):
    """Executes every primitive on symbolic arrays as the code runs; operations on
    known values are executed by JAX, so known indices stay known to Python."""

    def __init__(self, main, sublevel, *, it):
        super().__init__(main, sublevel)
        self.it = it

    def pure(self, x):
        x = jnp.asarray(x)
        return SymTracer(self, np.asarray(x), jcore.ShapedArray(x.shape, x.dtype))

    lift = pure

    def sublift(self, x):
        return SymTracer(self, x.val, x.aval)

    def process_primitive(self, primitive, tracers, params):
        it = self.it
        avals = [t.aval for t in tracers]
        out = primitive.abstract_eval(*avals, **params)
        if isinstance(out, tuple) and len(out) == 2 and isinstance(out[1], (set, frozenset)):
            out = out[0]      # effects
        outs_av = list(out) if primitive.multiple_results else [out]
        eqn = _Eqn(primitive, params, [_Var(a) for a in avals], [_Var(a) for a in outs_av])
        r = it.eqn(eqn, [t.val for t in tracers])
        rs = list(r) if primitive.multiple_results else [r]
        res = [SymTracer(self, o if is_sym(o) else np.asarray(o), a) for o, a in zip(map(_arr, rs), outs_av)]
        return res if primitive.multiple_results else res[0]

    def process_custom_jvp_call(self, primitive, fun, jvp, tracers, *, symbolic_zeros):
        with jcore.new_sublevel():
            return fun.call_wrapped(*tracers)

    def process_custom_vjp_call(self, primitive, fun, fwd, bwd, tracers, out_trees, symbolic_zeros):
        with jcore.new_sublevel():
            return fun.call_wrapped(*tracers)

    def process_call(self, primitive, f, tracers, params):
        with jcore.new_sublevel():
            return f.call_wrapped(*tracers)


def interpret_eager(fn, args, kwargs, ctx, opaque_rules=None):
    """Run fn on symbolic values directly."""
    it = Interp(ctx, {**OPAQUE, **(opaque_rules or {})})
    leaves, tree = leaves_of((tuple(args), dict(kwargs or {})))
    with jcore.new_main(SymTrace, it=it) as main:
        trace_ = main.with_cur_sublevel()
        ls = [SymTracer(trace_, x.atoms(), jcore.ShapedArray(x.shape, np.dtype(x.dtype))) if isinstance(x, Sym) else x for x in leaves]
        a, k = jax.tree_util.tree_unflatten(tree, ls)
        out = fn(*a, **k)

        def low(x):
            if isinstance(x, jcore.Tracer):
                t = trace_.full_raise(x)
                return _arr(t.val)
            return _arr(np.asarray(x)) if isinstance(x, jax.Array) else x
        res = jax.tree_util.tree_map(low, out)
        del main, trace_, ls, a, k, out
    return res, it
