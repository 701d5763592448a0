"""Array surgery helpers."""
import itertools
import math

import jax
import jax.numpy as jnp
import numpy as np

import cyjax
from cyjax import util
from cjv.core import Case
from cjv.extract import Sym, key_term
from cjv import alg
from . import lemmas as L
from . import sizes


def run(C):
    sizes.pop(C)
    sizes.insert(C)
    for name in ('pop', 'insert_1d', 'insert_col'):
        for case in L.CASES[name](C, C.uses):
            C.run(case)
    # several values / columns at once, 0-d value
    def post(out, a, P):
        P.eq('out', out, L.spec_insert_1d(*a))

    def postc(out, a, P):
        P.eq('out', out, L.spec_insert_col(*a))
    for n in (1, 2, 3):
        for i in range(-(n + 1), n + 1):
            C.run(Case('cyjax.util.insert_1d', f'n={n} two values index={i}', util.insert_1d,
                       (Sym('a', (n,)), Sym('v', (2,)), i), post))
            C.run(Case('cyjax.util.insert_1d', f'n={n} scalar index={i}', util.insert_1d,
                       (Sym('a', (n,)), Sym('v', ()), i), post))
            C.run(Case('cyjax.util.insert_col', f'2x{n} two columns index={i}', util.insert_col,
                       (Sym('a', (2, n)), Sym('v', (2, 2)), i), postc))
    # values of another type than the array keep theirs
    whole = np.array([[3, 1, 4], [1, 5, 9]])
    for i in range(-4, 4):
        for ka, kv in (('r', 'c'), ('c', 'r')):
            C.run(Case('cyjax.util.insert_1d', f'kinds {ka} {kv} index={i}', util.insert_1d,
                       (Sym('a', (3,), ka), Sym('v', (1,), kv), i), post))
            C.run(Case('cyjax.util.insert_col', f'kinds {ka} {kv} index={i}', util.insert_col,
                       (Sym('a', (2, 3), ka), Sym('v', (2,), kv), i), postc))
        for kv in 'rc':
            C.run(Case('cyjax.util.insert_1d', f'integers, {kv} index={i}', util.insert_1d, (whole[0], Sym('v', (), kv), i), post))
            C.run(Case('cyjax.util.insert_col', f'integers, {kv} index={i}', util.insert_col, (whole, Sym('v', (2,), kv), i), postc))
    # negative indices of pop count from the end, as those of an array
    def postn(out, a, P):
        arr, i = a
        P.eq('element', out[0], arr[i])
        P.eq('rest', out[1], np.delete(arr, i, axis=0))
    for n in range(1, 6):
        for i in range(-n, 0):
            C.run(Case('cyjax.util.pop', f'n={n} index={i}', util.pop, (Sym('a', (n,)), i), postn))
    for i in (-1, -3):
        C.run(Case('cyjax.util.pop', f'3x2 index={i}', util.pop, (Sym('a', (3, 2)), i), postn))

    # removing what was inserted restores the input (from the two contracts)
    rep = C.uses('pop', 'insert_1d')

    def back(arr, v, i):
        return util.pop(util.insert_1d(arr, v, i), i)

    def postb(out, a, P):
        P.eq('value', out[0], a[1][0])
        P.eq('array', out[1], a[0])
    for n in (0, 1, 2, 4):
        for i in range(n + 1):
            C.run(Case('pop after insert_1d', f'n={n} index={i}', back, (Sym('a', (n,)), Sym('v', (1,)), i), postb, replace=rep))

    # real integer arrays and edge values on the real code
    def post_int(out, a, P):
        P.eq('element', out[0], a[0][a[1]])
        P.eq('rest', out[1], np.delete(a[0], a[1], axis=0))
    for i in range(-4, 4):
        C.run(Case('cyjax.util.pop', f'integers index={i}', util.pop, (np.array([[3, 1], [4, 1], [5, 9], [2, 6]]), i), post_int))

    # shuffle_axis: permutes every slice along the axis, one independent key per leading index
    for shape, axis in [((3,), 0), ((2, 3), 1), ((2, 2, 2), 1), ((2, 2, 2), 2), ((3, 1), 0), ((3, 2), 0), ((2, 3, 2), 1)]:
        C.run(Case('cyjax.util.shuffle_axis', f'shape={shape} axis={axis}', util.shuffle_axis,
                   (Sym('k', (2,), 'k'), Sym('x', shape), axis), post_shuffle(shape, axis), path_limit=4096))

    for shape, axis in [((2, 2, 2, 2), 1), ((2, 2, 3, 2), 2), ((2, 3, 2, 2), 3), ((3, 2, 5), 1), ((2, 3, 7), 2), ((11,), 0), ((4, 9), 1), ((1, 1, 1, 6, 2), 3), ((3, 25), 1), ((2, 2, 25, 1), 2), ((8, 25, 2), 1), ((3, 5, 25, 2), 2)]:
        C.run(Case('cyjax.util.shuffle_axis', f'shape={shape} axis={axis}, numbers', util.shuffle_axis,
                   (Sym('k', (2,), 'k'), Sym('x', shape), axis), post_shuffle(shape, axis), symbolic=False, tries=4))

    binomial(C)

    # prod: value and inputs unchanged
    def product(*xs):
        return util.prod(x for x in xs)

    def postp(out, a, P):
        want = 1
        for x in a:
            want = want * x
        P.eq('product', out, np.asarray(want, dtype=object) if P.symbolic else want)
    for n in range(1, 5):
        C.run(Case('cyjax.util.prod', f'{n} scalars', product, tuple(Sym(f'x{i}') for i in range(n)), postp))
    C.run(Case('cyjax.util.prod', 'arrays', product, (Sym('x', (2,)), Sym('y', (2,)), Sym('z')), postp))
    try:
        e = util.prod(x for x in [])
        C.bounded_eval('cyjax.util.prod', 'empty product', float(np.asarray(e)) == 1.0, repr(e), {})
        for kind in ('array', 'list'):
            fs = [np.array([2., 3.]), np.array([5., 7.]), np.array([11., 13.])]
            cp = [f.copy() for f in fs]
            out = util.prod(fs if kind == 'list' else (f for f in fs))
            same = all(np.array_equal(f, c) for f, c in zip(fs, cp))
            C.bounded_eval('cyjax.util.prod', f'numpy arrays unchanged ({kind})', same,
                              f'inputs {cp} became {fs}', dict(inputs=[c.tolist() for c in cp]))
            C.bounded_eval('cyjax.util.prod', f'numpy arrays value ({kind})', np.array_equal(out, [110., 273.]), repr(out), {})
    except Exception as ex:
        C.fail('cyjax.util.prod', 'call', f'raised {type(ex).__name__}: {ex}')


def post_shuffle(shape, axis):
    def post(out, a, P):
        key, x, _ = a
        P.same('shape', out.shape, x.shape)
        if out.shape != x.shape:
            return
        lead = shape[:axis]
        n = shape[axis]
        perms = []
        for idx in np.ndindex(*lead):
            src, dst = x[idx], out[idx]
            # each output row is a distinct input row, as a whole
            used = []
            for r in range(n):
                m = [q for q in range(n) if q not in used and _same(src[q], dst[r], P)]
                if not m:
                    P.true(f'slice {list(idx)} row {r} is an input row', False, 'not an input row')
                    return
                used.append(m[0])
            P.true(f'slice {list(idx)} is a permutation', sorted(used) == list(range(n)))
            perms.append(tuple(used))
        if n >= 25 and not P.symbolic:
            P.same('slices are permuted independently', len(set(perms)), len(perms))
        if P.symbolic:
            keys = {}
            for tag, t, perm in [q for q in P.ctx.notes if q[0] == 'perm']:
                keys.setdefault(t, perm)
            P.true('one independent key per leading index', len(keys) == int(np.prod(lead, dtype=int)), f'{len(keys)} keys')
    return post


def _same(a, b, P):
    a, b = np.asarray(a), np.asarray(b)
    if P.symbolic:
        return all((x - y).is_zero() for x, y in zip(a.reshape(-1), b.reshape(-1)))
    return np.array_equal(a, b)


class SymInt:
    """Symbolic integer for straight-line integer code."""

    def __init__(self, v):
        self.v = alg.Frac.const(v.v if isinstance(v, SymInt) else v)

    def _b(f):
        return lambda a, b: SymInt(f(a.v, SymInt(b).v))
    __add__ = __radd__ = _b(lambda x, y: x + y)
    __sub__ = _b(lambda x, y: x - y)
    __rsub__ = _b(lambda x, y: y - x)
    __mul__ = __rmul__ = _b(lambda x, y: x * y)
    __floordiv__ = _b(lambda x, y: alg.Frac.atom(alg.SPACE.fn('floordiv', (x, y), real=True)))


def binomial(C):
    """binomial(n, k) = n! // (k! (n-k)!) for all n, k; exactness of the division is
    Nat.choose_eq_factorial_div_factorial."""
    f = 'cyjax.util.binomial'
    if C.replay is None:
        alg.reset()
        try:
            fact = lambda x: SymInt(alg.Frac.atom(alg.SPACE.fn('factorial', (SymInt(x).v,), real=True)))
            n, k = (SymInt(alg.Frac.atom(alg.SPACE.real(s))) for s in 'nk')
            saved = util.factorial
            util.factorial = fact
            try:
                got = util.binomial(n, k)
            finally:
                util.factorial = saved
            nv, kv = n.v, k.v
            want = (fact(n) // (fact(k) * fact(n - k))).v
            alt = (fact(n) // (fact(n - k) * fact(k))).v
            if (got.v - want).is_zero() or (got.v - alt).is_zero():
                C.record(f, 'all n, k: n!//(k!(n-k)!)', True, 'normal-form')
                C.assume('math.factorial is the factorial; n!/(k!(n-k)!) is an integer (Mathlib Nat.choose_eq_factorial_div_factorial)')
        except Exception:
            pass    # other formulations: the bounded check below stands alone
    from math import comb
    N = 120 if C.thorough else 90
    bad = []
    for n in range(N):
        for k in range(n + 1):
            try:
                if util.binomial(n, k) != comb(n, k):
                    bad.append((n, k, util.binomial(n, k)))
            except Exception as e:
                bad.append((n, k, repr(e)))
    C.bounded_eval(f, f'exhaustive 0<=k<=n<{N}', not bad, f'binomial{bad[0][:2]} gave {bad[0][2]}' if bad else '', dict(nk=bad[:1]), N * (N + 1) // 2)
