"""Key sequences and the buffered sampler."""
import types

import jax
import jax.numpy as jnp
import numpy as np

from cyjax import ml, util
from cjv import alg
from cjv.core import Case
from cjv.extract import Sym, activate, opaque, opaque_call, key_term
from cjv.interp import to_obj
from . import c11

NPAR, DIM = 2, 2


# ------------------------------------------------------------ contracts of what is given to the sampler

def atoms(name, shape, *of):
    out = np.empty(shape, dtype=object)
    for k in np.ndindex(*shape):
        out[k] = alg.Frac.atom(alg.SPACE.fn(name, (*k, *of)))
    return out


@opaque('c_moduli')
def _r_moduli(it, args, static):
    t = key_term(args[0])
    it.ctx.notes.append(('moduli', t, static['count']))
    return [moduli_atoms(t, static['count'])]


def moduli_atoms(t, count):
    return atoms('moduli', (count, NPAR), str(t), count)


@opaque('c_on_variety')
def _r_points(it, args, static):
    t = key_term(args[0])
    it.ctx.notes.append(('points', t, static['count']))
    return points_atoms(t, args[1], static['count'])


def points_atoms(t, par, count):
    par = to_obj(par).reshape(-1)
    return [atoms('coordinate', (count, DIM), str(t), count, *par), atoms('patch', (count,), str(t), count, *par),
            atoms('weight', (count,), str(t), count, *par)]


BIG = 2. ** 33


def words(key):
    return key[..., 0].astype(float), key[..., 1].astype(float)


def children(key):
    """Keys derived in one step from the one which was read off."""
    key = tuple(int(x) for x in key)
    if key not in CHILDREN:
        CHILDREN[key] = _children(jnp.array(key, dtype=np.uint32))
    return CHILDREN[key]


CHILDREN = {}


def _children(key):
    return {tuple(int(x) for x in k) for n in range(1, 9) for k in np.asarray(jax.random.split(key, n))} | \
           {tuple(int(x) for x in np.asarray(jax.random.fold_in(key, n))) for n in range(8)}


def params_sampler(key, count):
    if c11.extracting():
        return opaque_call('c_moduli', [((count, NPAR), np.complex128)], key, count=int(count))[0]
    # the key is read off the values
    a, b = words(key)
    return jnp.stack([a + BIG * jnp.arange(count), b + BIG * jnp.arange(count)], -1) + 0j


class Somewhere:
    """A variety, by the contract of its sampling: functions of key, parameters and count."""

    def sample_intersect(self, key, params, count, affine=False, weights=False):
        if not (affine and weights):
            raise alg.Unsupported('other kind of sample')
        if c11.extracting():
            z, p, w = opaque_call('c_on_variety', [((count, DIM), np.complex128), ((count,), np.int64), ((count,), np.float64)],
                                  key, params, count=int(count))
            return (z, p), w
        a, b = words(key)
        z = jnp.stack([a + BIG * jnp.arange(count), b + jnp.zeros(count)], -1) + 0j
        return (z, jnp.argmax(jnp.abs(z), -1)), z[:, 0].real + params[1].real


# ------------------------------------------------------------ keys

def term(P, key):
    return key_term(key) if P.symbolic else tuple(int(x) for x in np.asarray(key).reshape(-1))


def derived(t, root):
    while True:
        if t == root:
            return True
        if not isinstance(t, tuple) or len(t) < 2 or t[0] not in ('split', 'fold_in'):
            return False
        t = t[1]


def sequence(key, n):
    """First n keys and the n + 1 states, by definition."""
    keys, states = [], [key]
    for _ in range(n):
        k, s = jax.random.split(states[-1])
        keys.append(k)
        states.append(s)
    return keys, states


class OnlySeed(int):
    """An integer of which nothing is known: it may only be handed on."""


def _no(*a):
    raise alg.Unsupported('use of the value of the seed')


for _n in ('add', 'radd', 'sub', 'rsub', 'mul', 'rmul', 'eq', 'ne', 'lt', 'le', 'gt', 'ge', 'int', 'index', 'hash', 'bool', 'float',
           'mod', 'rmod', 'floordiv', 'truediv', 'and', 'or', 'xor', 'neg', 'abs', 'invert', 'lshift', 'rshift', 'repr', 'str', 'pow'):
    setattr(OnlySeed, f'__{_n}__', _no)
HELD = {}


def stub_key(seed, *a, **k):
    HELD.setdefault('seeds', []).append(seed)
    return HELD['key']


def seed_of(key):
    """(seed to use, key it stands for)"""
    if c11.extracting():
        HELD['key'], HELD['seeds'] = key, []
        HELD['seed'] = OnlySeed(5)
        return HELD['seed'], key
    s = int(np.asarray(key).reshape(-1)[0])
    return s, jax.random.PRNGKey(s)


EXTRA = ((jax.random, 'PRNGKey', stub_key),)


def key_sequence(C):
    key = Sym('key', (2,), kind='k')
    F = 'cyjax.util.PRNGSequence'
    for how in ('key', 'integer'):
        def fn(key):
            seed = key
            if how == 'integer':
                seed, key = seed_of(key)
            s = util.PRNGSequence(seed)
            return [next(s) for _ in range(5)], sequence(key, 5)[0]

        def post(out, a, P):
            P.same('keys', [term(P, k) for k in out[0]], [term(P, k) for k in out[1]])
            if how == 'integer' and P.symbolic:
                P.true('seed given to PRNGKey', all(x is HELD['seed'] for x in HELD['seeds']) and HELD['seeds'])
        C.run(Case(F, f'first keys, from {how}', fn, (key,), post, scope='5 keys', extra=EXTRA if how == 'integer' else ()))

    # particular integers
    for seed in (0, 1, -1, -7, 2 ** 31 - 1, 2 ** 31, 2 ** 32 - 1, 2 ** 40 + 3, True, np.int64(5), np.int32(-3), np.uint32(9)):
        activate()
        try:
            want = sequence(jax.random.PRNGKey(seed), 3)[0]
        except Exception:
            continue
        inp = {'seed': repr(seed)}
        try:
            s = util.PRNGSequence(seed)
            got = [next(s) for _ in range(3)]
        except Exception as e:
            if isinstance(seed, int):
                C.fail(F, f'integer {seed!r}', f'raised {type(e).__name__}: {e}', inp)
            continue
        C.bounded_eval(F, f'integer {seed!r}', all(np.array_equal(g, w) for g, w in zip(got, want)), f'{got} != {want}', inp)

    box = {}

    def step(key):
        s, t = util.PRNGSequence(key), util.PRNGSequence(sequence(key, 1)[1][1])
        next(s)
        (x, box['x']), (y, box['y']) = state(s), state(t)
        return x, y
    inductive(C, F, 'one key taken: state of a new sequence from the next state', step, (key,), box, 'all histories')


# ------------------------------------------------------------ states

def state(obj):
    """(arrays, everything else) reachable through the attributes of obj."""
    arrays = []

    def rec(x):
        if isinstance(x, (jax.Array, np.ndarray, jax.core.Tracer)):
            arrays.append(x)
            return 'array'
        if isinstance(x, (int, float, str, bool, type(None))):
            return x
        if isinstance(x, (list, tuple)):
            return [type(x).__name__, [rec(y) for y in x]]
        if isinstance(x, dict):
            return {k: rec(v) for k, v in x.items()}
        if isinstance(x, (util.PRNGSequence, ml.BatchSampler)):
            return {k: rec(v) for k, v in vars(x).items()}
        if callable(x):
            return getattr(x, '__qualname__', repr(type(x)))
        if isinstance(x, types.GeneratorType):
            raise alg.Unsupported('generator')
        return ('object', id(x))
    rest = rec(obj)
    return arrays, rest


def same_state(P, out, box):
    x, y = out
    ok = box['x'] == box['y'] and len(x) == len(y)
    if ok:
        for a, b in zip(x, y):
            a, b = np.asarray(a), np.asarray(b)
            ok = ok and a.shape == b.shape and all(equal(p, q) for p, q in zip(a.reshape(-1), b.reshape(-1)))
    return ok


def equal(a, b):
    if isinstance(a, alg.Frac) and isinstance(b, alg.Frac):
        return (a - b).is_zero()
    return str(a) == str(b)


def inductive(C, F, label, fn, args, box, scope, **kw):
    """Recorded only if it goes through: another representation of the state is no fault."""
    C.run_lemma(Case(F, label, fn, args, lambda out, a, P: P.true('state', same_state(P, out, box)), scope=scope, **kw))


# ------------------------------------------------------------ the sampler

def make(seed, buffer, bp, bs):
    return ml.BatchSampler(seed, Somewhere(), params_sampler, bp, bs, buffer)


def check_item(P, item, root, bp, bs, n):
    par, z, patch, w = (np.asarray(x) for x in item)
    P.same(f'item {n}: shapes', [par.shape, z.shape, patch.shape, w.shape], [(bp, NPAR), (bp, bs, DIM), (bp, bs), (bp, bs)])
    if not P.symbolic:
        P.true(f'item {n}: parameters of row', np.array_equal(w - z[..., 0].real, par[:, 1:].real + np.zeros_like(w)))
        P.same(f'item {n}: patch', patch.tolist(), np.argmax(abs(z), -1).tolist())
        keys = [tuple(int(x.real) for x in r) for r in (par[0], *z[:, 0])]
        P.true(f'item {n}: independent keys', not any(k in children(s) for i, s in enumerate(keys) for j, k in enumerate(keys) if i != j))
        near = {tuple(root)} | children(root)
        near = near | {k for s in near for k in children(s)} if not near.issuperset(keys) else near
        P.true(f'item {n}: drawn with key {n}', near.issuperset(keys), f'{keys} not derived from {root}')
        return keys
    used = []
    for kind, t, count in P.ctx.notes:
        if kind == 'moduli' and count == bp and derived(t, root) and all(map(equal, par.reshape(-1), moduli_atoms(t, bp).reshape(-1))):
            used.append(t)
            break
    P.true(f'item {n}: parameters drawn with key {n}', used)
    for i in range(bp):
        for kind, t, count in P.ctx.notes:
            if kind == 'points' and count == bs and derived(t, root):
                want = points_atoms(t, par[i], bs)
                if all(all(map(equal, x.reshape(-1), y.reshape(-1))) for x, y in zip((z[i], patch[i], w[i]), want)):
                    used.append(t)
                    break
        P.true(f'item {n}: points {i} of parameters {i} drawn with key {n}', len(used) == i + 2)
    P.true(f'item {n}: independent keys', not any(derived(s, t) for i, s in enumerate(used) for j, t in enumerate(used) if i != j))
    return used


def sampler(C):
    key = Sym('key', (2,), kind='k')
    F = 'cyjax.ml.BatchSampler'
    for buffer in (1, 2, 3, 4, 5):
        for bp, bs in ((1, 1), (2, 3), (3, 1)) if buffer < 4 else ((2, 1),):
            for how in ('key', 'integer') if (bp, bs) == (2, 3) else ('key',):
                T = 2 * buffer + 2

                def fn(key):
                    seed = key
                    if how == 'integer':
                        seed, key = seed_of(key)
                    s = make(seed, buffer, bp, bs)
                    keys = sequence(key, T)[0]
                    other = make(seed, buffer + 1, bp, bs)
                    # iterating anew goes on where the last call stopped
                    return [next(s) for _ in range(T)], keys, [next(iter(other)) for _ in range(T)]

                def post(out, a, P):
                    items, keys, other = out
                    used = []
                    for n in range(T):
                        used += check_item(P, items[n], term(P, keys[n]), bp, bs, n)
                        for x, y in zip(items[n], other[n]):
                            P.eq(f'item {n} independent of the buffer size and of how it is asked for', x, y)
                    P.same('no sample is repeated', len(set(map(str, used))), len(used))
                C.run(Case(F, f'buffer of {buffer}, {bp} parameters, {bs} points, from {how}', fn, (key,), post,
                           scope=f'buffer {buffer}, {T} calls', extra=EXTRA if how == 'integer' else (), tries=2))
        box = {}

        def step(key):
            s = make(key, buffer, 2, 1)
            for _ in range(buffer):
                next(s)
            t = make(sequence(key, buffer)[1][-1], buffer, 2, 1)
            (x, box['x']), (y, box['y']) = state(s), state(t)
            return x, y
        inductive(C, F, f'buffer of {buffer}: after {buffer} calls, state of a new sampler from the state of the sequence', step, (key,),
                  box, 'all histories')


def run(C):
    activate()
    key_sequence(C)
    sampler(C)
