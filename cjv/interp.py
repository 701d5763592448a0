"""Symbolic interpreter for jaxprs over exact scalars (cjv.alg).

Integers and booleans are always concrete: they come from enumerated inputs
(patch indices ...) or from path decisions (comparisons and argmax of symbolic
values), which `explore` enumerates exhaustively.
"""
from __future__ import annotations

import math
from fractions import Fraction

import jax
import jax.numpy as jnp
import numpy as np
from jax import core as jcore

from . import alg
from .alg import Frac, Unsupported, Undefined


class Special:
    """A non-finite float in a symbolic array."""
    def __init__(self, v):
        self.v = v

    def __repr__(self):
        return f'Special({self.v})'

    def conjugate(self):
        return self

    @property
    def real(self):
        return self


class PathLimit(Unsupported):
    pass


class Ctx:
    """Decisions and facts of the current path."""

    def __init__(self, prefix=()):
        self.prefix = list(prefix)
        self.taken = []       # (index, number of options)
        self.known = {}
        self.facts = []       # (relation, Frac)   relation in '<0','<=0','=0','!=0'
        self.squares = []     # consequences of facts, for syntactic matching only
        self.denoms = {}          # values which must not vanish
        self.positives = {}       # values which must not be negative
        self.draws = {}
        self.keytab = {}
        self.notes = []

    def decide(self, key, n):
        if key in self.known:
            return self.known[key]
        k = len(self.taken)
        c = self.prefix[k] if k < len(self.prefix) else 0
        self.taken.append((c, n))
        self.known[key] = c
        return c


def explore(fn, limit=2048):
    """Run fn(ctx) once per path; yields (ctx, result)."""
    prefix = []
    count = 0
    while True:
        ctx = Ctx(prefix)
        res = fn(ctx)
        yield ctx, res
        count += 1
        if count > limit:
            raise PathLimit(f'more than {limit} paths')
        t = ctx.taken
        while t and t[-1][0] + 1 >= t[-1][1]:
            t.pop()
        if not t:
            return
        prefix = [c for c, _ in t[:-1]] + [t[-1][0] + 1]


# ------------------------------------------------------------------ helpers

def is_sym(x):
    return isinstance(x, np.ndarray) and x.dtype == object


_const_cache = {}


def to_obj(x):
    """Concrete array -> object array of Frac."""
    if is_sym(x):
        return x
    x = np.asarray(x)
    out = np.empty(x.shape, dtype=object)
    flat = x.reshape(-1)
    o = out.reshape(-1)
    for k in range(flat.size):
        v = flat[k]
        if x.dtype.kind in 'fc' and not np.isfinite(v):
            o[k] = Special(v)
        else:
            o[k] = Frac.const(v)
    return out


def concretise(x):
    """Object array whose entries are all plain rationals -> float array, else same."""
    return x


def _map1(f, x):
    out = np.empty(x.shape, dtype=object)
    o, i = out.reshape(-1), x.reshape(-1)
    for k in range(i.size):
        o[k] = f(i[k])
    return out


def _map2(f, x, y):
    x, y = np.broadcast_arrays(x, y)
    out = np.empty(x.shape, dtype=object)
    o = out.reshape(-1)
    i, j = x.reshape(-1), y.reshape(-1)
    for k in range(i.size):
        o[k] = f(i[k], j[k])
    return out


def by_ids(bind, arrays):
    """Apply a pure data movement to symbolic arrays by moving integer ids."""
    pool = []
    idx = []
    for a in arrays:
        a = to_obj(a)
        n = len(pool)
        flat = a.reshape(-1)
        pool.extend(flat[k] for k in range(flat.size))
        idx.append(np.arange(n, n + a.size, dtype=np.int64).reshape(a.shape))
    res = bind(*[jnp.asarray(i) for i in idx])
    single = not isinstance(res, (list, tuple))
    outs = []
    for r in ([res] if single else res):
        r = np.asarray(r)
        o = np.empty(r.shape, dtype=object)
        fo, fr = o.reshape(-1), r.reshape(-1)
        for k in range(fr.size):
            j = int(fr[k])
            if not 0 <= j < len(pool):
                raise Undefined('read outside the bounds of an array')
            fo[k] = pool[j]
        outs.append(o)
    return outs[0] if single else outs


MOVE_FIRST = {  # primitives moving the entries of operand 0 only (other operands: ints)
    'broadcast_in_dim', 'reshape', 'squeeze', 'transpose', 'slice',
    'dynamic_slice', 'gather', 'rev', 'copy', 'copy_p', 'expand_dims', 'device_put',
    'optimization_barrier',
}


class Interp:
    def __init__(self, ctx, opaque=None):
        self.ctx = ctx
        self.opaque = opaque or {}
        self.prims = set()
        self.used = set()

    # ---- main loop
    def run(self, closed, args):
        return self.eval(closed.jaxpr, closed.consts, args)

    def eval(self, jaxpr, consts, args):
        env = {}

        def read(v):
            if isinstance(v, jcore.Literal):
                return np.asarray(v.val)
            return env[v]

        for v, c in zip(jaxpr.constvars, consts):
            env[v] = c if is_sym(c) else np.asarray(c)
        assert len(jaxpr.invars) == len(args), (len(jaxpr.invars), len(args))
        for v, a in zip(jaxpr.invars, args):
            env[v] = a if is_sym(a) else np.asarray(a)
        for eqn in jaxpr.eqns:
            ins = [read(v) for v in eqn.invars]
            outs = self.eqn(eqn, ins)
            if not eqn.primitive.multiple_results:
                outs = [outs]
            for v, o in zip(eqn.outvars, outs):
                if type(v).__name__ != 'DropVar':
                    o = o if is_sym(o) else np.asarray(o)
                    if o.shape != tuple(v.aval.shape):
                        raise Unsupported(f'{eqn.primitive.name}: shape {o.shape} != {v.aval.shape}')
                    env[v] = o
        return [read(v) for v in jaxpr.outvars]

    def eqn(self, eqn, ins):
        name = eqn.primitive.name
        p = eqn.params
        self.prims.add(name)
        if name == 'pjit':
            return self.run(p['jaxpr'], ins)
        if name in ('custom_jvp_call', 'custom_vjp_call', 'core_call', 'closed_call', 'remat',
                    'custom_vjp_call_jaxpr', 'checkpoint', 'xla_call'):
            j = p.get('call_jaxpr', p.get('jaxpr', p.get('fun_jaxpr')))
            if isinstance(j, jcore.ClosedJaxpr):
                return self.run(j, ins)
            return self.eval(j, (), ins)
        if name == 'cjv_opaque':
            return self.call_opaque(eqn, ins)
        if name == 'cond':
            if is_sym(ins[0]):
                raise Unsupported('cond on symbolic index')
            k = int(ins[0])
            k = min(max(k, 0), len(p['branches']) - 1)
            return self.run(p['branches'][k], ins[1:])
        if name == 'scan':
            return self.scan(eqn, ins)
        if name == 'while':
            return self.while_(eqn, ins)
        if not any(is_sym(x) for x in ins):
            # fold non-floating computations with JAX itself, floats exactly
            if all(np.asarray(x).dtype.kind in 'iubV' for x in ins) and \
                    all(v.aval.dtype.kind in 'iub' for v in eqn.outvars):
                return self.concrete(eqn, ins)
            if name in MOVE_FIRST or name in ('concatenate', 'select_n', 'pad', 'iota',
                                              'convert_element_type', 'eq', 'ne', 'lt', 'le', 'gt', 'ge',
                                              'dynamic_update_slice', 'scatter', 'is_finite', 'random_wrap',
                                              'random_unwrap', 'argmax', 'argmin', 'round', 'floor', 'ceil',
                                              'real', 'imag', 'neg', 'conj'):
                return self.concrete(eqn, ins)
            if all(v.aval.dtype.kind not in 'fc' for v in eqn.outvars):
                return self.concrete(eqn, ins)
        f = getattr(self, 'p_' + name.replace('-', '_'), None)
        if f is not None:
            return f(ins, p, eqn)
        if name in MOVE_FIRST:
            rest = ins[1:]
            if any(is_sym(r) for r in rest):
                raise Unsupported(f'{name} with symbolic index')
            pp = dict(p)
            if name == 'gather':
                return self.gather(ins, pp, eqn)
            return by_ids(lambda a: eqn.primitive.bind(a, *[jnp.asarray(r) for r in rest], **pp), ins[:1])
        raise Unsupported(f'no rule for primitive {name}')

    def concrete(self, eqn, ins):
        out = eqn.primitive.bind(*[jnp.asarray(x) for x in ins], **eqn.params)
        if eqn.primitive.multiple_results:
            return [np.asarray(o) for o in out]
        return np.asarray(out)

    def gather(self, ins, p, eqn):
        # out-of-bounds reads become visible: use fill mode with id -1
        from jax.lax import GatherScatterMode
        if p.get('mode') in (GatherScatterMode.FILL_OR_DROP,):
            p['fill_value'] = -1
        return by_ids(lambda a: eqn.primitive.bind(a, jnp.asarray(ins[1]), **p), ins[:1])

    # ---- control flow
    def scan(self, eqn, ins):
        p = eqn.params
        nc, ncar = p['num_consts'], p['num_carry']
        consts, carry, xs = ins[:nc], list(ins[nc:nc + ncar]), ins[nc + ncar:]
        n = p['length']
        ys = []
        order = range(n)
        if p.get('reverse'):
            order = reversed(order)
        rows = {}
        for t in order:
            out = self.run(p['jaxpr'], [*consts, *carry, *[x[t] if is_sym(x) else np.asarray(x)[t] for x in xs]])
            out = [_arr(o) for o in out]
            carry = out[:ncar]
            rows[t] = out[ncar:]
        outs = list(carry)
        nys = len(eqn.outvars) - ncar
        for k in range(nys):
            col = [rows[t][k] for t in range(n)]
            if n == 0:
                av = eqn.outvars[ncar + k].aval
                outs.append(np.zeros(av.shape, av.dtype))
            elif any(is_sym(c) for c in col):
                outs.append(_stack([to_obj(c) for c in col]))
            else:
                outs.append(np.stack(col))
        return outs

    def while_(self, eqn, ins):
        p = eqn.params
        cn, bn = p['cond_nconsts'], p['body_nconsts']
        cc, bc, carry = ins[:cn], ins[cn:cn + bn], list(ins[cn + bn:])
        for _ in range(10000):
            c, = self.run(p['cond_jaxpr'], [*cc, *carry])
            if is_sym(c):
                raise Unsupported('while on symbolic condition')
            if not bool(c):
                return carry
            carry = [_arr(o) for o in self.run(p['body_jaxpr'], [*bc, *carry])]
        raise Unsupported('loop does not terminate within 10000 steps')

    # ---- opaque operations (assumed or substituted contracts)
    def call_opaque(self, eqn, ins):
        p = eqn.params
        fn = self.opaque[p['name']]
        self.used.add(p['name'])
        nb = p['batched']        # tuple over levels (outermost first) of tuples of bool
        sizes = p['sizes']
        outs_av = [v.aval for v in eqn.outvars]

        def rec(level, args):
            if level == len(nb):
                r = fn(self, args, dict(p['static']))
                return [_arr(x) for x in r]
            rows = []
            for b in range(sizes[level]):
                rows.append(rec(level + 1, [a[b] if f else a for a, f in zip(args, nb[level])]))
            return [_stack([to_obj(r[k]) if any(is_sym(q[k]) for q in rows) else r[k] for r in rows])
                    for k in range(len(outs_av))]
        return rec(0, ins)

    # ---- data movement with several operands
    def p_concatenate(self, ins, p, eqn):
        return by_ids(lambda *a: eqn.primitive.bind(*a, **p), ins)

    def p_select_n(self, ins, p, eqn):
        which = ins[0]
        if is_sym(which):
            raise Unsupported('select on symbolic predicate')
        return by_ids(lambda *a: eqn.primitive.bind(jnp.asarray(which), *a, **p), ins[1:])

    def p_pad(self, ins, p, eqn):
        return by_ids(lambda a, b: eqn.primitive.bind(a, b.reshape(()), **p), ins)

    def p_dynamic_update_slice(self, ins, p, eqn):
        rest = ins[2:]
        return by_ids(lambda a, b: eqn.primitive.bind(a, b, *[jnp.asarray(r) for r in rest], **p), ins[:2])

    def p_scatter(self, ins, p, eqn):
        if is_sym(ins[1]):
            raise Unsupported('scatter at symbolic index')
        if p.get('update_jaxpr') is not None and len(ins) == 3:
            pass
        return by_ids(lambda a, b: jax.lax.scatter_p.bind(a, jnp.asarray(ins[1]), b, **p), [ins[0], ins[2]])

    def _scatter_targets(self, ins, p, eqn):
        """For each update element, the operand position it lands on (or None)."""
        upd = ins[2]
        n = upd.size
        oshape = ins[0].shape
        tgt = []
        params = {k: v for k, v in p.items()}
        zero = jnp.zeros(oshape, dtype=jnp.int64)
        for k in range(n):
            u = np.zeros(n, dtype=np.int64)
            u[k] = 1
            r = np.asarray(jax.lax.scatter_add_p.bind(
                zero, jnp.asarray(ins[1]), jnp.asarray(u.reshape(upd.shape)),
                **{**params, 'update_jaxpr': None, 'update_consts': ()}))
            w = np.flatnonzero(r)
            tgt.append(int(w[0]) if w.size else None)
        return tgt

    def _scatter_op(self, ins, p, eqn, op):
        if is_sym(ins[1]):
            raise Unsupported('scatter at symbolic index')
        a = to_obj(ins[0]).copy()
        u = to_obj(ins[2]).reshape(-1)
        flat = a.reshape(-1)
        for k, t in enumerate(self._scatter_targets(ins, p, eqn)):
            if t is not None:
                flat[t] = op(flat[t], u[k])
        return flat.reshape(a.shape)

    def p_scatter_add(self, ins, p, eqn):
        return self._scatter_op(ins, p, eqn, lambda x, y: x + y)

    def p_scatter_mul(self, ins, p, eqn):
        return self._scatter_op(ins, p, eqn, lambda x, y: x * y)

    # ---- conversions
    def p_convert_element_type(self, ins, p, eqn):
        x, = ins
        kind = np.dtype(p['new_dtype']).kind
        src = eqn.invars[0].aval.dtype.kind
        if not is_sym(x):
            return self.concrete(eqn, ins)
        if kind in 'fcV' and np.dtype(p['new_dtype']).itemsize < 4:
            raise Unsupported(f'rounding to {p["new_dtype"]}')
        if kind == 'c':
            return x
        if kind == 'f':
            if src == 'c':
                return _map1(_real, x)
            return x
        if kind == 'b':
            return self.p_ne([x, np.zeros(())], p, eqn)
        raise Unsupported(f'conversion of symbolic value to {p["new_dtype"]}')

    def p_reduce_precision(self, ins, p, eqn):
        if is_sym(ins[0]) and p['mantissa_bits'] < 23:
            raise Unsupported(f'rounding to {p["mantissa_bits"]} bits')
        return ins[0]

    def p_stop_gradient(self, ins, p, eqn):
        return ins[0]

    # ---- arithmetic
    def p_add(self, ins, p, eqn):
        return _map2(lambda a, b: a + b, *map(to_obj, ins))

    p_add_any = p_add

    def p_sub(self, ins, p, eqn):
        return _map2(lambda a, b: a - b, *map(to_obj, ins))

    def p_mul(self, ins, p, eqn):
        return _map2(_mul, *map(to_obj, ins))

    def p_div(self, ins, p, eqn):
        def f(a, b):
            self.note_den(b)
            return a / b
        return _map2(f, *map(to_obj, ins))

    def note_den(self, b):
        if isinstance(b, Frac) and b.as_const() is None:
            self.ctx.denoms[b.key()] = b

    def note_pos(self, a, eqn):
        if isinstance(a, Frac) and a.as_const() is None and eqn.invars[0].aval.dtype.kind == 'f':
            self.ctx.positives[a.key()] = a

    def p_neg(self, ins, p, eqn):
        return _map1(lambda a: -a, to_obj(ins[0]))

    def p_integer_pow(self, ins, p, eqn):
        n = p['y']

        def f(a):
            if n < 0:
                self.note_den(a)
            return a ** n
        return _map1(f, to_obj(ins[0]))

    def p_square(self, ins, p, eqn):
        return _map1(lambda a: a * a, to_obj(ins[0]))

    def p_pow(self, ins, p, eqn):
        x, y = ins
        if is_sym(y):
            return _map2(lambda a, b: a ** b, to_obj(x), y)
        xs, y = np.broadcast_arrays(to_obj(x), np.asarray(y))
        x = xs
        out = np.empty(x.shape, dtype=object)
        for k in np.ndindex(*x.shape):
            e = y[k]
            if np.iscomplexobj(e):
                if e.imag != 0:
                    raise Unsupported('complex power')
                e = e.real
            e = Fraction(float(e)).limit_denominator(1 << 20)
            if e < 0:
                self.note_den(xs[k])
            out[k] = xs[k] ** e
        return out

    def p_sqrt(self, ins, p, eqn):
        def f(a):
            self.note_pos(a, eqn)
            return a.sqrt()
        return _map1(f, to_obj(ins[0]))

    def p_rsqrt(self, ins, p, eqn):
        def f(a):
            self.note_den(a)
            self.note_pos(a, eqn)
            return a.sqrt().inverse()
        return _map1(f, to_obj(ins[0]))

    def p_exp(self, ins, p, eqn):
        return _map1(lambda a: a.exp(), to_obj(ins[0]))

    def p_exp2(self, ins, p, eqn):
        return _map1(lambda a: (a * Frac.const(2).log()).exp(), to_obj(ins[0]))

    def p_log(self, ins, p, eqn):
        def f(a):
            self.note_den(a)
            self.note_pos(a, eqn)
            return a.log()
        return _map1(f, to_obj(ins[0]))

    def p_log1p(self, ins, p, eqn):
        def f(a):
            self.note_den(a + 1)
            return (a + 1).log()
        return _map1(f, to_obj(ins[0]))

    def p_expm1(self, ins, p, eqn):
        return _map1(lambda a: a.exp() - 1, to_obj(ins[0]))

    def p_cos(self, ins, p, eqn):
        return _map1(lambda a: a.cos(), to_obj(ins[0]))

    def p_sin(self, ins, p, eqn):
        return _map1(lambda a: a.sin(), to_obj(ins[0]))

    def p_logistic(self, ins, p, eqn):
        return _map1(lambda a: alg.ONE / (alg.ONE + (-a).exp()), to_obj(ins[0]))

    def p_tanh(self, ins, p, eqn):
        def f(a):
            e = (2 * a).exp()
            return (e - 1) / (e + 1)
        return _map1(f, to_obj(ins[0]))

    def p_atan2(self, ins, p, eqn):
        return _map2(lambda a, b: Frac.atom(alg.SPACE.fn('atan2', (a, b), real=True)), *map(to_obj, ins))

    def p_abs(self, ins, p, eqn):
        return _map1(lambda a: abs(a), to_obj(ins[0]))

    def p_conj(self, ins, p, eqn):
        return _map1(lambda a: a.conjugate(), to_obj(ins[0]))

    def p_real(self, ins, p, eqn):
        return _map1(_real, to_obj(ins[0]))

    def p_imag(self, ins, p, eqn):
        return _map1(lambda a: a.imag, to_obj(ins[0]))

    def p_complex(self, ins, p, eqn):
        return _map2(lambda a, b: a + alg.I * b, *map(to_obj, ins))

    def p_max(self, ins, p, eqn):
        return _map2(lambda a, b: b if self.less(a, b) else a, *map(to_obj, ins))

    def p_min(self, ins, p, eqn):
        return _map2(lambda a, b: b if self.less(b, a) else a, *map(to_obj, ins))

    def p_clamp(self, ins, p, eqn):
        lo, x, hi = map(to_obj, ins)
        m = _map2(lambda a, b: b if self.less(a, b) else a, *np.broadcast_arrays(lo, x))
        return _map2(lambda a, b: b if self.less(b, a) else a, *np.broadcast_arrays(m, hi))

    def p_sign(self, ins, p, eqn):
        def f(a):
            if a.is_real():
                if self.less(a, alg.ZERO):
                    return -alg.ONE
                if self.less(alg.ZERO, a):
                    return alg.ONE
                return alg.ZERO
            return a / abs(a)
        return _map1(f, to_obj(ins[0]))

    # ---- comparisons: decided syntactically or by forking the path
    def less(self, a, b, strict=True):
        """Truth of a < b (strict) or a <= b."""
        if isinstance(a, Special) or isinstance(b, Special):
            return _special_cmp('lt' if strict else 'le', a, b)
        d = a - b
        if d.is_zero():
            return not strict
        c = d.as_const()
        if c is not None:
            return c < 0
        if not d.is_real():
            raise Unsupported('ordering of complex values')
        s = alg.known_sign(d)
        if s is not None:
            if s == '-':
                return True
            if s == '+':
                return False
            if s == '0-' and not strict:
                return True
            if s == '0+' and strict:
                return False
        num = _to_float(d)
        if num is not None:
            return num < 0 if strict else num <= 0
        # normalise: one decision per d up to sign
        k = ('lt', d.key()) if strict else ('ge', (-d).key())
        if strict:
            r = self.ctx.decide(('lt', d.key()), 2)   # option 0: d < 0 true
            truth = r == 0
            self.ctx.facts.append(('<0' if truth else '>=0', d))
        else:
            r = self.ctx.decide(('lt', (-d).key()), 2)   # -d < 0  i.e. not d <= 0
            truth = r != 0
            self.ctx.facts.append(('<=0' if truth else '>0', d))
        return truth

    def equal(self, a, b):
        if isinstance(a, Special) or isinstance(b, Special):
            return _special_cmp('eq', a, b)
        d = a - b
        if d.is_zero():
            return True
        c = d.as_const()
        if c is not None:
            return False
        s = alg.known_sign(d)
        if s in ('+', '-'):
            return False
        if _to_float(d) is not None:
            return abs(_to_float(d)) < 1e-300
        r = self.ctx.decide(('eq', d.key()), 2)
        truth = r == 1
        self.ctx.facts.append(('=0' if truth else '!=0', d))
        return truth

    def _cmp(self, f, ins):
        x, y = map(to_obj, ins)
        x, y = np.broadcast_arrays(x, y)
        out = np.empty(x.shape, dtype=bool)
        for k in np.ndindex(*x.shape):
            out[k] = f(x[k], y[k])
        return out

    def p_lt(self, ins, p, eqn):
        return self._cmp(lambda a, b: self.less(a, b), ins)

    def p_gt(self, ins, p, eqn):
        return self._cmp(lambda a, b: self.less(b, a), ins)

    def p_le(self, ins, p, eqn):
        return self._cmp(lambda a, b: self.less(a, b, False), ins)

    def p_ge(self, ins, p, eqn):
        return self._cmp(lambda a, b: self.less(b, a, False), ins)

    def p_eq(self, ins, p, eqn):
        return self._cmp(self.equal, ins)

    def p_ne(self, ins, p, eqn):
        return self._cmp(lambda a, b: not self.equal(a, b), ins)

    def p_is_finite(self, ins, p, eqn):
        x = to_obj(ins[0])
        out = np.empty(x.shape, dtype=bool)
        for k in np.ndindex(*x.shape):
            out[k] = not isinstance(x[k], Special)
        return out

    # ---- reductions
    def _reduce(self, ins, p, op, init):
        x = to_obj(ins[0])
        axes = tuple(p['axes'])
        keep = [k for k in range(x.ndim) if k not in axes]
        y = np.transpose(x, keep + list(axes)).reshape([x.shape[k] for k in keep] + [-1])
        out = np.empty(y.shape[:-1], dtype=object)
        for k in np.ndindex(*out.shape):
            v = None
            for e in y[k]:
                v = e if v is None else op(v, e)
            out[k] = init if v is None else v
        return out

    def p_reduce_sum(self, ins, p, eqn):
        return self._reduce(ins, p, lambda a, b: a + b, alg.ZERO)

    def p_reduce_prod(self, ins, p, eqn):
        return self._reduce(ins, p, lambda a, b: a * b, alg.ONE)

    def p_reduce_max(self, ins, p, eqn):
        return self._reduce(ins, p, lambda a, b: b if self.less(a, b) else a, None)

    def p_reduce_min(self, ins, p, eqn):
        return self._reduce(ins, p, lambda a, b: b if self.less(b, a) else a, None)

    def p_cumsum(self, ins, p, eqn):
        return self._cum(ins, p, lambda a, b: a + b)

    def p_cumprod(self, ins, p, eqn):
        return self._cum(ins, p, lambda a, b: a * b)

    def _cum(self, ins, p, op):
        x = np.moveaxis(to_obj(ins[0]), p['axis'], 0)
        if p.get('reverse'):
            x = x[::-1]
        out = np.empty(x.shape, dtype=object)
        acc = None
        for t in range(x.shape[0]):
            acc = x[t] if acc is None else _map2(op, _arr(acc), _arr(x[t]))
            out[t] = acc
        if p.get('reverse'):
            out = out[::-1]
        return np.moveaxis(out, 0, p['axis'])

    def _arg(self, ins, p, eqn, sgn):
        x = to_obj(ins[0])
        ax, = p['axes']
        x = np.moveaxis(x, ax, -1)
        out = np.empty(x.shape[:-1], dtype=np.dtype(p['index_dtype']))
        for k in np.ndindex(*out.shape):
            out[k] = self.argbest(list(x[k]), sgn)
        return out

    def argbest(self, vals, sgn):
        if all(_to_float(v) is not None for v in vals):
            f = [sgn * _to_float(v) for v in vals]
            return int(np.argmax(f))
        key = ('argmax', sgn, tuple(v.key() for v in vals))
        j = self.ctx.decide(key, len(vals))
        for m, v in enumerate(vals):
            if m != j:
                d = (v - vals[j]) * sgn
                self.ctx.facts.append(('<0' if m < j else '<=0', d))
                if sgn == 1 and all(alg.known_sign(x) in ('+', '0+') for x in (v, vals[j])):
                    self.ctx.squares.append(('<=0', v * v - vals[j] * vals[j]))
        return j

    def p_argmax(self, ins, p, eqn):
        return self._arg(ins, p, eqn, 1)

    def p_argmin(self, ins, p, eqn):
        return self._arg(ins, p, eqn, -1)

    def p_dot_general(self, ins, p, eqn):
        a, b = map(to_obj, ins)
        (ca, cb), (ba, bb) = p['dimension_numbers']
        fa = [k for k in range(a.ndim) if k not in ca and k not in ba]
        fb = [k for k in range(b.ndim) if k not in cb and k not in bb]
        A = np.transpose(a, [*ba, *fa, *ca])
        B = np.transpose(b, [*bb, *fb, *cb])
        bs = A.shape[:len(ba)]
        fas = A.shape[len(ba):len(ba) + len(fa)]
        fbs = B.shape[len(bb):len(bb) + len(fb)]
        nb, na, nf = math.prod(bs), math.prod(fas), math.prod(fbs)
        nk = math.prod(A.shape[len(ba) + len(fa):])
        A = A.reshape(nb, na, nk)
        B = B.reshape(nb, nf, nk)
        out = np.empty((nb, na, nf), dtype=object)
        for t in range(nb):
            for i in range(na):
                for j in range(nf):
                    acc = alg.ZERO
                    for k in range(nk):
                        x, y = A[t, i, k], B[t, j, k]
                        if x.is_zero() or y.is_zero():
                            continue
                        acc = acc + x * y
                    out[t, i, j] = acc
        return out.reshape(bs + fas + fbs)

    def p_iota(self, ins, p, eqn):
        return self.concrete(eqn, ins)

    def p_split(self, ins, p, eqn):
        return by_ids(lambda a: eqn.primitive.bind(a, **p), ins[:1])

    def p_nextafter(self, ins, p, eqn):
        return ins[0]


def _mul(a, b):
    if isinstance(a, Special) or isinstance(b, Special):
        raise Unsupported('arithmetic with a non-finite value')
    return a * b


def _real(a):
    if isinstance(a, Special):
        return a
    return a.real


def _special_cmp(op, a, b):
    va = a.v if isinstance(a, Special) else 0.0
    vb = b.v if isinstance(b, Special) else 0.0
    if op == 'eq':
        return bool(va == vb)
    if op == 'lt':
        return bool(va < vb)
    return bool(va <= vb)


def _to_float(x):
    """Numeric value of a symbolic constant (pi, sqrt(2), ...), else None."""
    if isinstance(x, Special):
        return None
    if not _constant_atoms(x):
        return None
    v = complex(alg.substitute(x, {}))
    return v.real if abs(v.imag) < 1e-12 else None


def _constant_atoms(x):
    for p in [x.num, *x.den]:
        for a in p.atoms():
            at = alg.SPACE.atoms[a]
            if at.kind == 'unit' or at.name == alg.PI_ATOM_NAME:
                continue
            if at.kind == 'sqrt' and _constant_atoms(at.arg):
                continue
            if at.kind == 'fn' and at.arg[0] in ('log', 'exp') and _constant_atoms(at.arg[1][0]):
                continue
            return False
    return True


def _arr(x):
    if isinstance(x, np.ndarray):
        return x
    if isinstance(x, Frac):
        o = np.empty((), dtype=object)
        o[()] = x
        return o
    return np.asarray(x)


def _stack(rows):
    rows = [_arr(r) for r in rows]
    if any(is_sym(r) for r in rows):
        rows = [to_obj(r) for r in rows]
        out = np.empty((len(rows), *rows[0].shape), dtype=object)
        for k, r in enumerate(rows):
            out[k] = r if r.shape else r[()]
        return out
    return np.stack(rows)
