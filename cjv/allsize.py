"""Proofs for arrays of every size.

The real function is traced once with symbolic dimensions.  Arrays become
functions from index terms to values; index terms are linear integer terms over
the dimensions, the arguments which are indices and the quantified indices.
Comparisons of integers are decided by an SMT solver from the facts of the path
or split the path.  Sums over a symbolic axis are brought to the normal form
    sum_{lo <= k < hi} c m(k) = c (S_m(hi) - S_m(lo)),   S_m(x + 1) = S_m(x) + m(x).
Nothing here raises an alarm: what is not proved is left to the cases of fixed size.
"""
import contextlib
import functools
import itertools
import os
import subprocess
import time
import traceback

import jax
import jax.numpy as jnp
import numpy as np
from jax import lax
from jax import core as jcore
from jax._src import core as _core
from jax.experimental.export import shape_poly
from jax._src.numpy import lax_numpy as _lnp

from . import alg
from .alg import Frac, Poly, Unsupported
from .interp import Interp, Special, explore
from .extract import cyjax_modules, activate, Sym
from .core import Case


# ------------------------------------------------------------------ integer terms

class Lin:
    """Linear integer term: const + sum coeff * symbol."""
    __slots__ = ('c', 't')

    def __init__(self, c=0, t=()):
        self.c = c
        self.t = tuple(t)           # sorted ((symbol, coeff), ...)

    @staticmethod
    def sym(name):
        return Lin(0, ((name, 1),))

    @staticmethod
    def of(x):
        if isinstance(x, Lin):
            return x
        if isinstance(x, (bool, np.bool_)):
            return Lin(int(x))
        if isinstance(x, (int, np.integer)):
            return Lin(int(x))
        if isinstance(x, np.ndarray) and x.dtype.kind in 'iub' and x.ndim == 0:
            return Lin(int(x))
        return dim(x)

    def key(self):
        return (self.c, self.t)

    def const(self):
        return self.c if not self.t else None

    def syms(self):
        return {s for s, _ in self.t}

    def coeff(self, s):
        return dict(self.t).get(s, 0)

    def __add__(self, o):
        o = Lin.of(o)
        d = dict(self.t)
        for s, k in o.t:
            d[s] = d.get(s, 0) + k
        return Lin(self.c + o.c, sorted((s, k) for s, k in d.items() if k))

    __radd__ = __add__

    def scale(self, k):
        return Lin(self.c * k, ((s, a * k) for s, a in self.t) if k else ())

    def __neg__(self):
        return self.scale(-1)

    def __sub__(self, o):
        return self + (-Lin.of(o))

    def __rsub__(self, o):
        return Lin.of(o) + (-self)

    def __mul__(self, o):
        o = Lin.of(o)
        if o.const() is not None:
            return self.scale(o.c)
        if self.const() is not None:
            return o.scale(self.c)
        raise Unsupported('product of index terms')

    __rmul__ = __mul__

    def subst(self, s, e):
        k = self.coeff(s)
        if not k:
            return self
        return Lin(self.c, (x for x in self.t if x[0] != s)) + Lin.of(e).scale(k)

    def smt(self):
        parts = [str(self.c) if self.c >= 0 else f'(- {-self.c})']
        for s, k in self.t:
            v = f'|{s}|'
            parts.append(v if k == 1 else f'(* {k if k >= 0 else f"(- {-k})"} {v})')
        return parts[0] if len(parts) == 1 else f'(+ {" ".join(parts)})'

    def frac(self):
        out = Frac.const(self.c)
        for s, k in self.t:
            out = out + Frac.atom(int_atom(s)) * k
        return out

    def __repr__(self):
        return ' + '.join([str(self.c)] * (self.c != 0 or not self.t) + [f'{k if k != 1 else ""}{s}' for s, k in self.t])


def dim(d):
    """Dimension of a traced array as a term."""
    if isinstance(d, (int, np.integer)):
        return Lin(int(d))
    out = Lin(0)
    for mon, c in d._coeffs.items():
        if mon.degree == 0:
            out = out + int(c)
            continue
        atom, e = next(iter(mon.items()))
        if len(mon.items()) != 1 or e != 1 or atom.var is None:
            raise Unsupported(f'dimension {d}')
        out = out + Lin.sym(atom.var).scale(int(c))
    return out


class Solver:
    """Entailment of linear integer facts, by z3."""

    def __init__(self):
        self.p = None
        self.cache = {}
        self.queries = 0

    def sat(self, cons):
        """cons: iterable of (relation, Lin) with relation '<' (< 0), '=' (= 0)."""
        key = frozenset((r, t.key()) for r, t in cons)
        if key in self.cache:
            return self.cache[key]
        live = []
        for r, t in cons:
            c = t.const()
            if c is None:
                live.append((r, t))
            elif not (c < 0 if r == '<' else c == 0):
                self.cache[key] = False
                return False
        if not live:
            return True
        if self.p is None:
            self.p = subprocess.Popen(['z3', '-in', '-smt2'], stdin=subprocess.PIPE, stdout=subprocess.PIPE, text=True, bufsize=1)
        self.queries += 1
        syms = sorted(set().union(*[t.syms() for _, t in live]))
        q = ['(push)'] + [f'(declare-const |{s}| Int)' for s in syms]
        q += [f'(assert ({r} {t.smt()} 0))' for r, t in live]
        q += ['(check-sat)', '(pop)']
        self.p.stdin.write('\n'.join(q) + '\n')
        self.p.stdin.flush()
        ans = self.p.stdout.readline().strip()
        if ans not in ('sat', 'unsat'):
            raise Unsupported(f'solver: {ans}')
        self.cache[key] = ans == 'sat'
        return self.cache[key]

    def close(self):
        if self.p is not None:
            self.p.kill()
            self.p.wait()
            self.p = None


SOLVER = Solver()


# ------------------------------------------------------------------ atoms with index terms

def int_atom(s):
    S = alg.SPACE
    key = ('int', s)
    if key not in S.by_key:
        a = S._new(f'<{s}>', 'real')
        S.atoms[a].arg = ('int', s)
        S.by_key[key] = a
    return S.by_key[key]


def elem_atom(arr, idx, kind, sign=None):
    S = alg.SPACE
    key = ('elem', arr, tuple(i.key() for i in idx))
    if key not in S.by_key:
        name = f'{arr}[{",".join(map(repr, idx))}]'
        a = S._new(name, 'real' if kind == 'r' else 'cplx')
        S.atoms[a].arg = ('elem', arr, tuple(idx), kind, sign)
        S.atoms[a].sign = sign
        if sign == '+':
            S.atoms[a].nonzero = True
        S.by_key[key] = a
        if kind != 'r':
            b = S._new(name + '~', 'cplx')
            S.atoms[b].arg = ('elem~', arr, tuple(idx), kind, sign)
            S.atoms[a].conj, S.atoms[b].conj = b, a
    return S.by_key[key]


def atom_syms(a):
    """Index symbols an atom depends on."""
    at = alg.SPACE.atoms[a]
    if at.kind == 'unit' or at.arg is None:
        return frozenset()
    memo = alg.SPACE.__dict__.setdefault('_isyms', {})
    if a in memo:
        return memo[a]
    out = set()
    if at.kind == 'sqrt':
        out = frac_syms(at.arg)
    elif at.kind == 'fn':
        for x in at.arg[1]:
            if isinstance(x, Frac):
                out |= frac_syms(x)
    elif at.arg[0] == 'int':
        out = {at.arg[1]}
    elif at.arg[0] in ('elem', 'elem~'):
        for i in at.arg[2]:
            out |= i.syms()
    elif at.arg[0] in ('sum', 'sum~'):
        _, bound, mono, upper = at.arg
        for b, _ in mono:
            out |= atom_syms(b)
        out = (set(out) - {bound}) | upper.syms()
    memo[a] = frozenset(out)
    return memo[a]


def frac_syms(x):
    out = set()
    for a in alg._all_atoms(x):
        out |= atom_syms(a)
    return out


class LArr:
    """Array as a function of index terms."""
    __slots__ = ('shape', 'f', 'memo', 'kind')

    def __init__(self, shape, f, kind):
        self.shape = tuple(Lin.of(d) for d in shape)
        self.f = f
        self.kind = kind           # 'c', 'f', 'i', 'b'
        self.memo = {}

    def at(self, *idx):
        if time.time() > DEADLINE[0]:
            raise Unsupported('time limit')
        return MACHINE[-1].read(self, idx)

    @property
    def ndim(self):
        return len(self.shape)


MACHINE = []
DEADLINE = [float('inf')]


class Scope:
    """A bound index of a sum, with the decisions depending on it."""

    def __init__(self, sym, lo, hi):
        self.sym = sym
        self.base = [('<', Lin.of(lo) - Lin.sym(sym) - 1), ('<', Lin.sym(sym) - hi)]
        self.prefix = []
        self.start()

    def start(self):
        self.facts = list(self.base)
        self.taken = []

    def decide(self, n):
        k = len(self.taken)
        c = self.prefix[k] if k < len(self.prefix) else 0
        self.taken.append((c, n))
        return c

    def advance(self):
        t = self.taken
        while t and t[-1][0] + 1 >= t[-1][1]:
            t.pop()
        if not t:
            return False
        self.prefix = [c for c, _ in t[:-1]] + [t[-1][0] + 1]
        return True


class SymKey:
    """One word of a random key; the term contains index terms."""
    __slots__ = ('term', 'comp')

    def __init__(self, term, comp):
        self.term, self.comp = term, comp


def key_larr(term):
    return LArr((2,), lambda idx: SymKey(term, idx[0].const()), 'i')


def key_of(x):
    """Term of a key given as an array of two words."""
    a, b = x.at(0), x.at(1)
    if not isinstance(a, SymKey) or not isinstance(b, SymKey) or (a.comp, b.comp) != (0, 1) or flat_key(a.term) != flat_key(b.term):
        raise Unsupported('random key')
    return a.term


def flat_key(t):
    """(structure, index terms) of a key term."""
    idx = []

    def rec(t):
        if isinstance(t, Lin):
            idx.append(t)
            return '*'
        if isinstance(t, tuple):
            return tuple(rec(x) for x in t)
        return str(t)
    return repr(rec(t)), tuple(i.key() for i in idx)


def key_index(t):
    if isinstance(t, Lin):
        return [t]
    return [i for x in t for i in key_index(x)] if isinstance(t, tuple) else []


RULES = {}


def rule(name):
    def deco(f):
        RULES[name] = f
        return f
    return deco


@rule('split')
def _r_split(M, args, static, out):
    t = key_of(args[0])
    shape = static['shape']
    n = len(shape)

    def f(idx):
        return SymKey(('split', t, tuple(str(d) for d in shape), tuple(idx[:n])), idx[n].const())
    return [LArr([dim(d) for d in shape] + [Lin(2)], f, 'i')]


def drawn(M, what, key, shape, sign=None):
    """Array of values which are a function of the key, the shape and the index."""
    t = key_of(key)
    name = f'{what}<{flat_key(t)[0]}>{[str(d) for d in shape]}'
    pre = key_index(t)
    return LArr([dim(d) for d in shape], lambda idx: M.element(name, (*pre, *idx), 'r', sign), 'f')


@rule('normal')
def _r_normal(M, args, static, out):
    return [drawn(M, 'normal', args[0], static['shape'])]


@rule('uniform')
def _r_uniform(M, args, static, out):
    u = drawn(M, 'uniform', args[0], static['shape'], '0+')
    return [LArr(u.shape, lambda idx: args[1].at() + u.at(*idx) * (args[2].at() - args[1].at()), 'f')]


@rule('inv')
def _r_inv(M, args, static, out):
    """Some array; a contract is stated on the matrix which is inverted."""
    name = f'inverse{len(M.notes)}'
    r = LArr(args[0].shape, lambda idx: M.element(name, idx, 'c', None), 'c')
    M.notes.append(('inverse', args[0], r))
    return [r]


@rule('det')
def _r_det(M, args, static, out):
    """Some number; a contract is stated on the matrix."""
    if args[0].ndim != 2:
        raise Unsupported('batch of determinants')
    a = M.element(f'determinant{len(M.notes)}', (), 'c', None)
    M.notes.append(('determinant', args[0], a))
    return [LArr((), lambda idx: a, 'c')]


@rule('drawn')
def _r_drawn(M, args, static, out):
    """Results of a sampler: functions of the key and the index."""
    t = key_of(args[0])
    pre = tuple(key_index(t))
    M.notes.append(('drawn', flat_key(t)[0], pre, [([str(d) for d in s], 'r' if d.kind == 'f' else 'c') for s, d in out]))
    res = []
    for k, (shape, dtype) in enumerate(out):
        name = f'drawn{k}<{flat_key(t)[0]}>{[str(d) for d in shape]}'
        kind = 'r' if dtype.kind == 'f' else 'c'
        # integers are kept as values: they may only be handed on
        res.append(LArr([dim(d) for d in shape], lambda idx, name=name, kind=kind: M.element(name, (*pre, *idx), kind, None), {'u': 'i'}.get(dtype.kind, dtype.kind)))
    return res


def probe(M, x):
    """What is known of an array: its entries at arbitrary indices."""
    idx = []
    if any(d.const() == 0 for d in x.shape):
        return ()
    if all(d.const() is not None and d.const() <= 16 for d in x.shape):
        return tuple(whole(M, x.at(*map(Lin, k))) for k in np.ndindex(*[d.const() for d in x.shape]))
    for k, d in enumerate(x.shape):
        s = f'@{k}:{d!r}'
        i = Lin.sym(s)
        if not any(s in t.syms() for _, t in M.facts):
            M.facts += [('<', -i - 1), ('<', i - d)]
        idx.append(i)
    return (whole(M, x.at(*idx)),)


def whole(M, v):
    if isinstance(v, (Frac, Lin, bool, int, np.integer)):
        return M.number(v)
    raise Unsupported('argument of a contract')


ELEMENTWISE = {'add', 'sub', 'mul', 'div', 'neg', 'integer_pow', 'sqrt', 'rsqrt', 'exp', 'log', 'abs', 'real', 'imag', 'conj',
               'complex', 'max', 'min', 'sign', 'lt', 'le', 'gt', 'ge', 'eq', 'ne', 'and', 'or', 'not', 'xor', 'rem', 'select_n',
               'convert_element_type', 'copy', 'copy_p', 'stop_gradient', 'reduce_precision', 'clamp', 'square', 'pow', 'log1p',
               'cos', 'sin', 'add_any', 'device_put', 'is_finite', 'expm1', 'tanh', 'logistic', 'optimization_barrier'}


class Below:
    """Truth of d < 0 under a sum, d not identically zero."""

    def __init__(self, d):
        self.d = d

    def choose(self, yes, no):
        size = (self.d * self.d).sqrt()
        return (yes + no) / 2 + (no - yes) * size / (self.d * 2)


class Machine:
    """Interpreter of jaxprs with symbolic dimensions."""

    def __init__(self, ctx):
        self.ctx = ctx
        self.facts = []
        self.scopes = []
        self.it = Interp(ctx)
        self.fresh = 0
        self.reps = {}
        self.quant = []           # (array, number of known maximal entry): see argmax
        self.prims = set()
        self.notes = []
        self.loops = 0

    # ---- decisions
    def all_facts(self):
        out = list(self.facts)
        for s in self.scopes:
            out += s.facts
        return out

    def entails(self, rel, t):
        c = t.const()
        if c is not None:
            return c < 0 if rel == '<' else c == 0
        F = self._relevant(t)
        if rel == '<':
            return not SOLVER.sat(F + [('<', -t - 1)])
        return not SOLVER.sat(F + [('<', t)]) and not SOLVER.sat(F + [('<', -t)])

    def _relevant(self, t):
        """The facts connected to the symbols of t."""
        F = self.all_facts()
        S = set(t.syms())
        out, rest = [], F
        while True:
            new = [f for f in rest if f[1].syms() & S]
            if not new:
                return out
            out += new
            rest = [f for f in rest if not f[1].syms() & S]
            for f in new:
                S |= f[1].syms()

    def _choose(self, key, t, options):
        for s in reversed(self.scopes):
            if t.coeff(s.sym):
                r = s.decide(len(options))
                s.facts.append(options[r])
                return r
        r = self.ctx.decide(key, len(options))
        self.facts.append(options[r])
        return r

    def neg(self, t):
        """Truth of t < 0."""
        t = Lin.of(t)
        if self.entails('<', t):
            return True
        if self.entails('<', -t - 1):
            return False
        return self._choose(('int<', t.key(), tuple(s.sym for s in self.scopes)), t, [('<', t), ('<', -t - 1)]) == 0

    def less(self, a, b):
        return self.neg(Lin.of(a) - b)

    def leq(self, a, b):
        return not self.neg(Lin.of(b) - a)

    def zero(self, t):
        t = Lin.of(t)
        if self.entails('=', t):
            return True
        opts = [o for o in (('<', t), ('=', t), ('<', -t)) if SOLVER.sat(self._relevant(t) + [o])]
        if len(opts) == 1:
            self.facts.append(opts[0]) if not self.scopes else None
            return opts[0][0] == '='
        if all(o[0] != '=' for o in opts):
            return False
        r = self._choose(('int=', t.key(), tuple(s.sym for s in self.scopes)), t, opts)
        return opts[r][0] == '='

    def equal(self, a, b):
        return self.zero(Lin.of(a) - b)

    # ---- values
    def element(self, arr, idx, kind, sign):
        """Atom of an argument array; indices equal on this path share it."""
        idx = tuple(idx)
        reps = self.reps.setdefault(arr, [])
        for r in reps:
            if all(x.key() == y.key() for x, y in zip(r, idx)):
                return Frac.atom(elem_atom(arr, r, kind, sign))
        live = {s.sym for s in self.scopes}
        for r in reps:
            if any(str(s).startswith('$') and s not in live for x in r for s in x.syms()):
                continue
            if all(self.entails('=', x - y) for x, y in zip(r, idx)):
                return Frac.atom(elem_atom(arr, r, kind, sign))
        reps.append(idx)
        return Frac.atom(elem_atom(arr, idx, kind, sign))

    def read(self, a, idx):
        idx = tuple(Lin.of(i) for i in idx)
        if len(idx) != len(a.shape):
            raise Unsupported('rank')
        for i, d in zip(idx, a.shape):
            if not (self.entails('<', -i - 1) and self.entails('<', i - d)):
                raise Unsupported(f'index {i} not known to be within {d}')
        key = (tuple(i.key() for i in idx), self._case())
        if key not in a.memo:
            v = a.f(idx)
            key = (key[0], self._case())
            a.memo[key] = v
        return a.memo[key]

    def _case(self):
        return tuple((s.sym, tuple((r, t.key()) for r, t in s.facts[2:])) for s in self.scopes)

    def number(self, v):
        if isinstance(v, Lin):
            return v.frac()
        if isinstance(v, (bool, np.bool_)):
            return Frac.const(int(v))
        return v if isinstance(v, Frac) else Frac.const(v)

    def sum(self, lo, hi, f):
        """Sum of f(k) over lo <= k < hi."""
        lo, hi = Lin.of(lo), Lin.of(hi)
        c = (hi - lo).const()
        if c is not None and c <= 64:
            out = alg.ZERO
            for j in range(c):
                out = out + self.number(f(lo + j))
            return out
        if not self.less(lo, hi):
            return alg.ZERO
        self.fresh += 1
        sc = Scope(f'${self.fresh}', lo, hi)
        k = Lin.sym(sc.sym)
        pieces = []
        nrep = {a: len(r) for a, r in self.reps.items()}
        while True:
            sc.start()
            known = len(self.facts) + sum(len(o.facts) for o in self.scopes)
            self.scopes.append(sc)
            try:
                v = self.number(f(k))
            finally:
                self.scopes.pop()
            if len(self.facts) + sum(len(o.facts) for o in self.scopes) != known:
                # something new is known about the outer indices: the
                # enumeration of the cases starts again with it
                sc.prefix, pieces = [], []
                continue
            pieces.append((sc.facts[2:], v))
            if len(pieces) > 64:
                raise Unsupported('too many pieces of a sum')
            if not sc.advance():
                break
        for a, r in self.reps.items():
            self.reps[a] = r[:nrep.get(a, 0)] + [x for x in r[nrep.get(a, 0):] if not any(sc.sym in i.syms() for i in (x if isinstance(x, tuple) else (x,)))]
        out = alg.ZERO
        for facts, v in pieces:
            if v.is_zero():
                continue
            lows, highs = [lo], [hi]
            for rel, t in facts:
                e = t.coeff(sc.sym)
                r = t.subst(sc.sym, 0)
                if e not in (1, -1):
                    raise Unsupported('condition on a summation index')
                if rel == '=':
                    p = r.scale(-e)
                    lows.append(p)
                    highs.append(p + 1)
                elif e == 1:            # k < -r
                    highs.append(-r)
                else:                   # k > r
                    lows.append(r + 1)
            low, high = lows[0], highs[0]
            for x in lows[1:]:
                if self.entails('<', low - x - 1) or not self.leq(x, low):
                    low = x
            for x in highs[1:]:
                if self.entails('<', x - high - 1) or not self.leq(high, x):
                    high = x
            if not self.less(low, high):
                continue
            if self.entails('=', high - low - 1):
                out = out + self.number(f(low))
            else:
                out = out + self.antiderivative(v, sc.sym, low, high)
        return out

    def antiderivative(self, v, sym, lo, hi):
        num, den = v.num, v.den
        coeff_den, inv = alg.ONE, {}
        for p, e in den.items():
            q = Frac(p)
            if sym in frac_syms(q):
                a = alg.SPACE.fn('inv', (q,))
                inv[a] = inv.get(a, 0) + e
            else:
                coeff_den = coeff_den * q ** e
        groups = {}
        for m, c in num.t.items():
            dep = dict(inv)
            ind = Frac.const(c)
            for a, e in m:
                if sym in atom_syms(a):
                    dep[a] = dep.get(a, 0) + e
                else:
                    ind = ind * Frac.atom(a) ** e
            key = tuple(sorted(dep.items()))
            groups[key] = groups.get(key, alg.ZERO) + ind
        out = alg.ZERO
        for mono, c in groups.items():
            if c.is_zero():
                continue
            if not mono:
                out = out + c * (hi - lo).frac()
                continue
            out = out + c * (self.primitive(mono, sym, hi) - self.primitive(mono, sym, lo))
        return out / coeff_den

    def primitive(self, mono, sym, x):
        """S_m(x), m a monomial in atoms depending on sym."""
        # canonical name and offset of the bound index
        height = 0
        offs = []
        running = {sc.sym for sc in self.scopes}
        for a, _ in mono:
            for s in all_bound(a):
                height = max(height, int(s[1:]))
            at = alg.SPACE.atoms[a]
            if at.kind not in ('sqrt', 'fn') and at.arg and at.arg[0] in ('elem', 'elem~'):
                for i in at.arg[2]:
                    if i.coeff(sym) == 1 and not any(t != sym and (t.startswith('#') or t in running) for t in i.syms()):
                        offs.append(i.subst(sym, 0))
        shift = offs[0] if offs else Lin(0)
        for o in offs[1:]:
            d = (o - shift).const()
            if d < 0 if d is not None else self.entails('<', o - shift):
                shift = o
        bound = f'#{height + 1}'
        value = alg.ONE
        for a, e in mono:
            value = value * self.replace_atom(a, sym, Lin.sym(bound) - shift) ** e
        if len(value.num.t) != 1 or value.den:
            raise Unsupported('summand is not a monomial')
        (m, c), = value.num.t.items()
        x = x + shift
        reps = self.reps.setdefault(('sum', m), [Lin(0)])
        base = None
        for r in reps:
            d = (x - r).const()
            if d is not None and abs(d) <= 64:
                base = (r, d)
                break
        if base is None:
            for r in reps:
                for d in (0, 1, -1):
                    if self.entails('=', x - r - d):
                        base = (r, d)
                        break
                if base:
                    break
        if base is None:
            reps.append(x)
            base = (x, 0)
        r, d = base
        out = alg.ZERO if r.const() == 0 else self.sum_value(bound, m, r)
        term = Frac(Poly({m: 1}))
        for j in range(d):
            out = out + self.replace(term, bound, r + j)
        for j in range(-d):
            out = out - self.replace(term, bound, r - 1 - j)
        return out * Frac.const(c)

    # ---- nested sums: the order of independent sums does not matter
    def joint(self, bound, mono, upper):
        """Nested sums as one sum over several indices: [(symbol, upper)], monomial."""
        over, flat = [(bound, upper)], alg.ONE
        todo = [(a, 1) for a, e in mono for _ in range(e if is_sum(a) else 0)]
        for a, e in mono:
            if not is_sum(a):
                flat = flat * Frac.atom(a) ** e
        while todo:
            a, _ = todo.pop()
            _, b, m, u = alg.SPACE.atoms[a].arg
            self.fresh += 1
            new = f'#%{self.fresh}'
            over.append((new, u))
            for x, e in m:
                y = self.replace_atom(x, b, Lin.sym(new))
                if is_sum(x):
                    if len(y.num.t) != 1 or y.den or e > 4:
                        return None
                    (mm, c), = y.num.t.items()
                    if c != 1 or len(mm) != 1 or mm[0][1] != 1:
                        return None
                    todo += [(mm[0][0], 1)] * e
                else:
                    flat = flat * y ** e
        names = {b for b, _ in over}
        if any(u.syms() & names for _, u in over) or len(flat.num.t) != 1 or flat.den:
            return None
        (m, c), = flat.num.t.items()
        return (over, m) if c == 1 else None

    def sum_value(self, bound, mono, upper):
        key = ('sum', bound, mono, upper.key())
        memo = alg.SPACE.__dict__.setdefault('_sums', {})
        if key in memo:
            return memo[key]
        if not any(is_sum(a) for a, _ in mono):
            out = Frac.atom(sum_atom(bound, mono, upper))
        else:
            j = self.joint(bound, mono, upper)
            if j is None or len(j[0]) > 4:
                out = Frac.atom(sum_atom(bound, mono, upper))
            else:
                over, flat = j
                best = None
                for perm in itertools.permutations(range(len(over))):
                    v = alg.ONE
                    for a, e in flat:
                        w = Frac.atom(a)
                        for pos, k in enumerate(perm):
                            w = self.replace(w, over[k][0], Lin.sym(f'#{pos + 1}'))
                        v = v * w ** e
                    if len(v.num.t) != 1 or v.den:
                        raise Unsupported('order of sums')
                    (m, c), = v.num.t.items()
                    name = ([over[k][1].key() for k in perm], sorted((alg.SPACE.atoms[a].name, e) for a, e in m))
                    if best is None or name < best[0]:
                        best = (name, perm, m, c)
                _, perm, m, c = best
                if c != 1:
                    raise Unsupported('order of sums')
                for pos, k in enumerate(perm):
                    a = sum_atom(f'#{pos + 1}', m, over[k][1])
                    m = ((a, 1),)
                out = Frac.atom(a)
        memo[key] = out
        return out

    # ---- replacement of an index symbol
    def replace(self, v, sym, e):
        if sym not in frac_syms(v):
            return v

        def poly(p):
            out = alg.ZERO
            for m, c in p.t.items():
                w = Frac.const(c)
                for a, n in m:
                    w = w * self.replace_atom(a, sym, e) ** n
                out = out + w
            return out
        out = poly(v.num)
        for p, n in v.den.items():
            out = out / poly(p) ** n
        return out

    def unify(self, v):
        """v with the index symbols replaced that the path determines."""
        self.literal = True
        try:
            return self._unify(v)
        finally:
            self.literal = False

    literal = False

    def _unify(self, v):
        for rel, t in list(self.facts):
            t = t if rel == '=' else t + 1
            if rel != '=' and not self.entails('=', t):
                continue
            for s in sorted(t.syms() & frac_syms(v), key=str):
                if t.coeff(s) in (1, -1):
                    v = self.replace(v, s, t.subst(s, 0).scale(-t.coeff(s)))
                    break
        return v

    def replace_atom(self, a, sym, e):
        if sym not in atom_syms(a):
            return Frac.atom(a)
        at = alg.SPACE.atoms[a]
        if at.kind == 'sqrt':
            return self.replace(at.arg, sym, e).sqrt()
        if at.kind == 'fn':
            args = [self.replace(y, sym, e) if isinstance(y, Frac) else y for y in at.arg[1]]
            if at.arg[0] == 'log':
                return args[0].log()
            if at.arg[0] == 'exp':
                return alg.exp(args[0])
            return Frac.atom(alg.SPACE.fn(at.arg[0], tuple(args), real=at.conj == a or None))
        if at.arg[0] == 'int':
            return Lin.of(e).frac()
        if at.arg[0] in ('elem', 'elem~'):
            _, arr, idx, kind, sign = at.arg
            new = tuple(i.subst(sym, e) for i in idx)
            bound = any(s.startswith('#') for i in new for s in i.syms())
            v = Frac.atom(elem_atom(arr, new, kind, sign)) if bound or self.literal else self.element(arr, new, kind, sign)
            return v.conjugate() if at.arg[0] == 'elem~' else v
        if at.arg[0] in ('sum', 'sum~'):
            _, bound, mono, upper = at.arg
            m = alg.ONE
            for b, n in mono:
                m = m * self.replace_atom(b, sym, e) ** n
            if len(m.num.t) != 1 or m.den:
                raise Unsupported('replacement in a sum')
            (mm, c), = m.num.t.items()
            upper = upper.subst(sym, e)
            if self.literal and upper.const() is not None and 0 <= upper.const() <= 8:
                return sum((self.replace(m, bound, Lin(k)) for k in range(upper.const())), alg.ZERO)
            return self.sum_value(bound, mm, upper) * Frac.const(c)
        raise Unsupported(f'replacement in {at.name}')

    # ---- programs
    def run(self, closed, args):
        return self.eval(closed.jaxpr, [self.wrap(c) for c in closed.consts], args)

    def wrap(self, x):
        if isinstance(x, LArr):
            return x
        x = np.asarray(x)
        kind = {'u': 'i'}.get(x.dtype.kind, x.dtype.kind)

        def f(idx):
            pos = []
            for i, d in zip(idx, x.shape):
                c = i.const()
                if c is None:
                    c = next((j for j in range(d - 1) if self.equal(i, j)), d - 1)
                pos.append(c)
            v = x[tuple(pos)]
            if kind == 'b':
                return bool(v)
            if kind == 'i':
                return Lin(int(v))
            return Special(v) if not np.isfinite(v) else Frac.const(v)
        return LArr(x.shape, f, kind)

    def eval(self, jaxpr, consts, args):
        env = {}

        def read(v):
            return self.wrap(v.val) if isinstance(v, jcore.Literal) else env[v]
        env.update(zip(jaxpr.constvars, consts))
        env.update(zip(jaxpr.invars, args))
        for eqn in jaxpr.eqns:
            outs = self.eqn(eqn, [read(v) for v in eqn.invars])
            if not eqn.primitive.multiple_results:
                outs = [outs]
            for v, o in zip(eqn.outvars, outs):
                if type(v).__name__ != 'DropVar':
                    env[v] = o
        return [read(v) for v in jaxpr.outvars]

    def eqn(self, eqn, ins):
        name, p = eqn.primitive.name, eqn.params
        self.prims.add(name)
        if name == 'pjit':
            return self.run(p['jaxpr'], ins)
        if name in ('custom_jvp_call', 'custom_vjp_call', 'core_call', 'closed_call', 'remat', 'custom_vjp_call_jaxpr', 'checkpoint'):
            j = p.get('call_jaxpr', p.get('jaxpr', p.get('fun_jaxpr')))
            return self.run(j, ins) if isinstance(j, jcore.ClosedJaxpr) else self.eval(j, (), ins)
        aval = eqn.outvars[0].aval
        shape = [dim(d) for d in aval.shape]
        kind = {'u': 'i'}.get(aval.dtype.kind, aval.dtype.kind)
        if name in ELEMENTWISE:
            def f(idx):
                return self.scalar(name, [x.at(*[Lin(0) if d.const() == 1 else i for i, d in zip(idx, x.shape)]) for x in ins], eqn, kind)
            return LArr(shape, f, kind)
        g = getattr(self, 'p_' + name, None)
        if g is None:
            raise Unsupported(f'no rule for {name} with symbolic dimensions')
        return g(ins, p, eqn, shape, kind)

    def p_cond(self, ins, p, eqn, shape, kind):
        k, branches = ins[0].at(), p['branches']
        if isinstance(k, Below):
            raise Unsupported('branch on summed values')
        if isinstance(k, Lin):
            k = next((j for j in range(len(branches) - 1) if self.equal(k, j)), len(branches) - 1)
        return self.run(branches[int(k)], ins[1:])

    # ---- elementwise
    def scalar(self, name, v, eqn, kind):
        src = eqn.invars[0].aval.dtype.kind
        if kind in 'fcV' and eqn.outvars[0].aval.dtype.itemsize < 4 or eqn.params.get('mantissa_bits', 52) < 23:
            raise Unsupported(f'rounding to {eqn.outvars[0].aval.dtype}')
        if name in ('copy', 'copy_p', 'stop_gradient', 'reduce_precision', 'device_put', 'optimization_barrier'):
            return v[0]
        if name == 'select_n':
            k = v[0]
            if isinstance(k, Below):
                return k.choose(self.number(v[2]), self.number(v[1]))
            if isinstance(k, Lin):
                k = next((j for j in range(len(v) - 2) if self.equal(k, j)), len(v) - 2)
            return v[1 + int(k)]
        if name == 'convert_element_type':
            x = v[0]
            if kind in 'fc':
                if src == 'c' and kind == 'f':
                    return x.real
                return self.number(x)
            if kind == 'i':
                if isinstance(x, (bool, np.bool_)):
                    return Lin(int(x))
                if isinstance(x, Lin):
                    return x
                raise Unsupported('real value as integer')
            if isinstance(x, Lin):
                return not self.zero(x)
            if isinstance(x, (bool, np.bool_)):
                return x
            raise Unsupported('conversion to a truth value')
        if src == 'b':
            if any(isinstance(x, Below) for x in v):
                raise Unsupported('comparison of summed values')
            b = [bool(x) for x in v]
            r = {'and': lambda: b[0] and b[1], 'or': lambda: b[0] or b[1], 'not': lambda: not b[0], 'xor': lambda: b[0] != b[1],
                 'eq': lambda: b[0] == b[1], 'ne': lambda: b[0] != b[1]}.get(name)
            if r is None:
                raise Unsupported(f'{name} of truth values')
            return r()
        if src in 'iu':
            return self.integer(name, [Lin.of(x) for x in v], eqn)
        if any(isinstance(x, Special) for x in v):
            if name in ('eq', 'ne') and any(isinstance(x, Frac) for x in v):
                return name == 'ne'           # the specification is for finite values
            raise Unsupported('non-finite value')
        if name in ('eq', 'ne') and isinstance(v[0], Frac) and (v[0] - v[1]).is_zero():
            return name == 'eq'
        if name == 'is_finite':
            return True
        if name in ('lt', 'le', 'gt', 'ge', 'eq', 'ne', 'max', 'min', 'sign', 'clamp') and self.scopes:
            live = {s.sym for s in self.scopes}
            if any(frac_syms(x) & live for x in v):
                if name in ('lt', 'le'):
                    return Below(v[0] - v[1])
                if name in ('gt', 'ge'):
                    return Below(v[1] - v[0])
                raise Unsupported('comparison of summed values')
        args = []
        for x in v:
            o = np.empty((), dtype=object)
            o[()] = x
            args.append(o)
        r = getattr(self.it, 'p_' + name)(args, eqn.params, eqn)
        return r[()]

    def integer(self, name, v, eqn):
        a = v[0]
        b = v[1] if len(v) > 1 else None
        if name == 'add':
            return a + b
        if name == 'sub':
            return a - b
        if name == 'mul':
            return a * b
        if name == 'neg':
            return -a
        if name == 'lt':
            return self.less(a, b)
        if name == 'le':
            return self.leq(a, b)
        if name == 'gt':
            return self.less(b, a)
        if name == 'ge':
            return self.leq(b, a)
        if name == 'eq':
            return self.equal(a, b)
        if name == 'ne':
            return not self.equal(a, b)
        if name == 'max':
            return b if self.less(a, b) else a
        if name == 'min':
            return a if self.less(a, b) else b
        if name == 'abs':
            return -a if self.neg(a) else a
        if name == 'sign':
            return Lin(-1) if self.neg(a) else Lin(0) if self.zero(a) else Lin(1)
        if name == 'clamp':
            lo, x, hi = v
            x = lo if self.less(x, lo) else x
            return hi if self.less(hi, x) else x
        if name == 'rem':
            # truncated division, sign of the dividend; a few periods around zero
            if not self.entails('<', -b):
                if self.neg(b):
                    b = -b
                elif self.zero(b):
                    raise Unsupported('remainder by zero')
            s = -1 if self.neg(a) else 1
            a = a.scale(s)
            for _ in range(4):
                if self.less(a, b):
                    return a.scale(s)
                a = a - b
            raise Unsupported('remainder of a large term')
        if name == 'integer_pow' and eqn.params['y'] == 1:
            return a
        raise Unsupported(f'{name} of integers')

    # ---- structure
    def p_dim_as_value(self, ins, p, eqn, shape, kind):
        try:
            d = dim(p['dim'])
        except Unsupported:
            # a product of dimensions, usable as a number only
            d = alg.ZERO
            for mon, c in p['dim']._coeffs.items():
                t = Frac.const(int(c))
                for atom, e in mon.items():
                    if atom.var is None:
                        raise
                    t = t * Lin.sym(atom.var).frac() ** e
                d = d + t
        return LArr((), lambda idx: d, 'i')

    def p_broadcast_in_dim(self, ins, p, eqn, shape, kind):
        x = ins[0]
        bd = p['broadcast_dimensions']

        def f(idx):
            return x.at(*[Lin(0) if d.const() == 1 else idx[b] for d, b in zip(x.shape, bd)])
        return LArr(shape, f, kind)

    def p_reshape(self, ins, p, eqn, shape, kind):
        x = ins[0]
        keep = [d.key() for d in x.shape if d.const() != 1]
        if keep == [d.key() for d in shape if d.const() != 1] and p['dimensions'] is None:
            def f(idx):
                it = iter([i for i, d in zip(idx, shape) if d.const() != 1])
                return x.at(*[Lin(0) if d.const() == 1 else next(it) for d in x.shape])
            return LArr(shape, f, kind)
        raise Unsupported('reshape of symbolic dimensions')

    def p_squeeze(self, ins, p, eqn, shape, kind):
        x, drop = ins[0], p['dimensions']

        def f(idx):
            it = iter(idx)
            return x.at(*[Lin(0) if k in drop else next(it) for k in range(x.ndim)])
        return LArr(shape, f, kind)

    def p_expand_dims(self, ins, p, eqn, shape, kind):
        x, new = ins[0], p['dimensions']
        return LArr(shape, lambda idx: x.at(*[i for k, i in enumerate(idx) if k not in new]), kind)

    def p_transpose(self, ins, p, eqn, shape, kind):
        x, perm = ins[0], p['permutation']

        def f(idx):
            j = [None] * x.ndim
            for a, b in enumerate(perm):
                j[b] = idx[a]
            return x.at(*j)
        return LArr(shape, f, kind)

    def p_rev(self, ins, p, eqn, shape, kind):
        x = ins[0]
        return LArr(shape, lambda idx: x.at(*[x.shape[k] - 1 - i if k in p['dimensions'] else i for k, i in enumerate(idx)]), kind)

    def p_iota(self, ins, p, eqn, shape, kind):
        ax = p['dimension']
        return LArr(shape, lambda idx: idx[ax] if kind == 'i' else idx[ax].frac(), kind)

    def p_concatenate(self, ins, p, eqn, shape, kind):
        ax = p['dimension']

        def f(idx):
            i = idx[ax]
            for x in ins[:-1]:
                if self.less(i, x.shape[ax]):
                    return x.at(*idx[:ax], i, *idx[ax + 1:])
                i = i - x.shape[ax]
            return ins[-1].at(*idx[:ax], i, *idx[ax + 1:])
        return LArr(shape, f, kind)

    def p_slice(self, ins, p, eqn, shape, kind):
        x = ins[0]
        if p['strides'] is not None and any(s != 1 for s in p['strides']):
            raise Unsupported('strides')
        start = [dim(s) for s in p['start_indices']]
        return LArr(shape, lambda idx: x.at(*[i + s for i, s in zip(idx, start)]), kind)

    def _start(self, x, starts, sizes):
        out = []
        for d, s, n in zip(x.shape, starts, sizes):
            s, top = Lin.of(s.at()), d - n
            if self.neg(s):
                s = Lin(0)
            out.append(top if self.less(top, s) else s)
        return out

    def p_dynamic_slice(self, ins, p, eqn, shape, kind):
        x, starts = ins[0], ins[1:1 + ins[0].ndim]

        def f(idx):
            return x.at(*[i + s for i, s in zip(idx, self._start(x, starts, shape))])
        return LArr(shape, f, kind)

    def p_dynamic_update_slice(self, ins, p, eqn, shape, kind):
        x, u = ins[0], ins[1]

        def f(idx):
            j = [i - s for i, s in zip(idx, self._start(x, ins[2:], u.shape))]
            for i, d in zip(j, u.shape):
                if self.neg(i) or not self.less(i, d):
                    return x.at(*idx)
            return u.at(*j)
        return LArr(shape, f, kind)

    def p_pad(self, ins, p, eqn, shape, kind):
        x, v = ins
        cfg = p['padding_config']
        if any(c != 0 for _, _, c in cfg):
            raise Unsupported('interior padding')

        def f(idx):
            j = [i - dim(lo) for i, (lo, _, _) in zip(idx, cfg)]
            for i, d in zip(j, x.shape):
                if self.neg(i) or not self.less(i, d):
                    return v.at()
            return x.at(*j)
        return LArr(shape, f, kind)

    def p_gather(self, ins, p, eqn, shape, kind):
        x, ind = ins
        dn = p['dimension_numbers']
        sizes = [dim(s) for s in p['slice_sizes']]
        mode = str(p['mode']).lower()
        if getattr(dn, 'operand_batching_dims', ()):
            raise Unsupported('batched gather')

        def f(idx):
            off = [i for k, i in enumerate(idx) if k in dn.offset_dims]
            bat = [i for k, i in enumerate(idx) if k not in dn.offset_dims]
            start = [Lin(0)] * x.ndim
            for k, d in enumerate(dn.start_index_map):
                s = Lin.of(ind.at(*bat, Lin(k)))
                top = x.shape[d] - sizes[d]
                if 'clip' in mode:
                    if self.neg(s):
                        s = Lin(0)
                    s = top if self.less(top, s) else s
                elif self.neg(s) or self.less(top, s):
                    raise Unsupported('gather outside the array')
                start[d] = s
            it = iter(off)
            return x.at(*[start[d] if d in dn.collapsed_slice_dims else start[d] + next(it) for d in range(x.ndim)])
        return LArr(shape, f, kind)

    def p_scatter(self, ins, p, eqn, shape, kind, op=None):
        x, ind, u = ins
        dn = p['dimension_numbers']
        if len(dn.update_window_dims) + 0 != u.ndim or ind.ndim != 1:
            raise Unsupported('scatter')

        def f(idx):
            win = iter([u.shape[k] for k in dn.update_window_dims])
            j = []
            for d in range(x.ndim):
                s = Lin(0)
                if d in dn.scatter_dims_to_operand_dims:
                    s = Lin.of(ind.at(Lin(dn.scatter_dims_to_operand_dims.index(d))))
                i = idx[d] - s
                n = Lin(1) if d in dn.inserted_window_dims else next(win)
                if self.neg(s) or self.less(x.shape[d] - n, s):
                    raise Unsupported('scatter outside the array')
                if self.neg(i) or not self.less(i, n):
                    return x.at(*idx)
                if d not in dn.inserted_window_dims:
                    j.append(i)
            new = u.at(*j)
            return new if op is None else op(x.at(*idx), new)
        return LArr(shape, f, kind)

    def p_scatter_add(self, ins, p, eqn, shape, kind):
        return self.p_scatter(ins, p, eqn, shape, kind, lambda a, b: a + b)

    # ---- reductions
    def p_reduce_sum(self, ins, p, eqn, shape, kind):
        x, axes = ins[0], p['axes']

        def f(idx):
            def rec(rest, full):
                if not rest:
                    it = iter(idx)
                    return x.at(*[full[k] if k in full else next(it) for k in range(x.ndim)])
                ax = rest[0]
                return self.sum(0, x.shape[ax], lambda i: rec(rest[1:], {**full, ax: i}))
            if kind == 'i':
                raise Unsupported('sum of integers')
            return rec(list(axes), {})
        return LArr(shape, f, kind)

    def p_dot_general(self, ins, p, eqn, shape, kind):
        a, b = ins
        (ca, cb), (ba, bb) = p['dimension_numbers']

        def f(idx):
            nb = len(ba)
            batch = idx[:nb]
            fa = [k for k in range(a.ndim) if k not in ca and k not in ba]
            fb = [k for k in range(b.ndim) if k not in cb and k not in bb]
            ia, ib = idx[nb:nb + len(fa)], idx[nb + len(fa):]

            def place(n, cdims, bdims, free, cs, fi):
                j = [None] * n
                for d, i in zip(cdims, cs):
                    j[d] = i
                for d, i in zip(bdims, batch):
                    j[d] = i
                for d, i in zip(free, fi):
                    j[d] = i
                return j

            def rec(cs):
                if len(cs) == len(ca):
                    return self.number(a.at(*place(a.ndim, ca, ba, fa, cs, ia))) * self.number(b.at(*place(b.ndim, cb, bb, fb, cs, ib)))
                return self.sum(0, a.shape[ca[len(cs)]], lambda i: rec(cs + [i]))
            return rec([])
        return LArr(shape, f, kind)

    def p_argmax(self, ins, p, eqn, shape, kind):
        x, (ax,) = ins[0], p['axes']
        if self.scopes:
            raise Unsupported('argmax under a sum')
        self.fresh += 1
        name = f'best{self.fresh}'

        def f(idx):
            if {s.sym for s in self.scopes} & set().union(*[i.syms() for i in idx], set()):
                raise Unsupported('argmax under a sum')
            s = name + ''.join(f'_{i!r}' for i in idx)
            j = Lin.sym(s)
            if not any(q[0] == s for q in self.quant):
                self.facts += [('<', -j - 1), ('<', j - x.shape[ax])]
                self.quant.append((s, j, x.shape[ax], lambda k: x.at(*idx[:ax], k, *idx[ax:])))
            return j
        return LArr(shape, f, 'i')

    # ---- contracts of callees
    def p_cjv_opaque(self, ins, p, eqn, shape, kind):
        f = RULES.get(p['name'])
        if f is None:
            raise Unsupported(f'no contract of {p["name"]} for every size')
        static, levels = dict(p['static']), p['batched']
        nb = len(levels)
        if not nb:
            return f(self, ins, static, p['out'])
        memo = {}

        def at(bidx):
            key = tuple(i.key() for i in bidx), self._case()
            if key not in memo:
                args = []
                for k, x in enumerate(ins):
                    lead = [i for i, fl in zip(bidx, levels) if fl[k]]
                    args.append(LArr(x.shape[len(lead):], lambda idx, x=x, lead=lead: x.at(*lead, *idx), x.kind))
                memo[key] = f(self, args, static, p['out'])
            return memo[key]
        out = []
        for j, v in enumerate(eqn.outvars):
            out.append(LArr([dim(d) for d in v.aval.shape], lambda idx, j=j: at(idx[:nb])[j].at(*idx[nb:]), {'u': 'i'}.get(v.aval.dtype.kind, v.aval.dtype.kind)))
        return out

    # ---- loops
    def loop(self, n, body, init, same):
        """Values of the carried arrays as functions of the number of iterations.

        A carried array must be constant, a counter, a key replaced by a function of itself,
        or a sum to which each iteration adds a term not depending on it: each a loop invariant
        checked by evaluating the body once on arbitrary carried values."""
        self.loops += 1
        tag = f'@loop{self.loops}'
        m = len(init)
        hole = [LArr(x.shape, lambda idx, k=k, x=x: self.element(f'{tag}.{k}', idx, 'r' if x.kind == 'f' else 'c', None), x.kind) for k, x in enumerate(init)]

        def has_hole(v):
            return any(str(alg.SPACE.atoms[a].name).startswith(tag) for a in alg._all_atoms(v))
        form = [None] * m
        it = Lin.sym(f'{tag}.i')
        self.facts += [('<', -it - 1), ('<', it - n)]
        start = []
        for k, x in enumerate(init):
            v = x.at(*[Lin(0)] * x.ndim) if x.kind == 'i' and all(self.entails('<', -d) for d in x.shape) else None
            if same[k]:
                start.append(x)
            elif isinstance(v, SymKey):
                start.append(key_larr(('carried', k)))
            elif isinstance(v, Lin) and x.ndim == 0:
                start.append(LArr((), lambda idx, v=v: v + it, 'i'))
            else:
                start.append(hole[k])
        known = len(self.notes)
        outs = body(start, it)
        del self.notes[known:]
        for k, (x, o) in enumerate(zip(init, outs)):
            if same[k]:
                form[k] = ('same',)
            elif x.kind == 'i' and x.ndim == 0 and isinstance(x.at(), Lin):
                if (Lin.of(o.at()) - start[k].at()).const() != 1:
                    raise Unsupported('counter')
                form[k] = ('count',)
            elif x.kind == 'i':
                form[k] = ('key', flat_key(key_of(o)))
                if form[k][1][1]:
                    if any(f'{tag}' in s for i in key_index(key_of(o)) for s in i.syms()):
                        raise Unsupported('key depending on the iteration')
            else:
                form[k] = ('sum',)

        memo = {}

        def step(i):
            key = i.key(), self._case()
            if key not in memo:
                memo[key] = body([carried(k, i, True) for k in range(m)], i)
            return memo[key]

        def carried(k, i, inside=False):
            x = init[k]
            if form[k][0] == 'same':
                return x
            if form[k][0] == 'count':
                return LArr((), lambda idx: x.at() + i, 'i')
            if form[k][0] == 'key':
                return key_larr(('iterate', form[k][1], key_of(x), i))
            if inside:
                return hole[k]

            def f(idx):
                def add(j):
                    v = self.number(step(Lin.of(j))[k].at(*idx)) - hole[k].at(*idx)
                    if has_hole(v):
                        raise Unsupported('not a sum over the iterations')
                    return v
                return self.number(x.at(*idx)) + self.sum(0, i, add)
            return LArr(x.shape, f, x.kind)
        step(it)
        return step, carried

    def p_scan(self, ins, p, eqn, shape, kind):
        nc, nk = p['num_consts'], p['num_carry']
        n = dim(p['length'])
        consts, init, xs = ins[:nc], ins[nc:nc + nk], ins[nc + nk:]
        if p['reverse']:
            raise Unsupported('reversed scan')

        def body(carry, i):
            sl = [LArr(x.shape[1:], lambda idx, x=x: x.at(i, *idx), x.kind) for x in xs]
            return self.eval(p['jaxpr'].jaxpr, [self.wrap(c) for c in p['jaxpr'].consts], [*consts, *carry, *sl])
        j = p['jaxpr'].jaxpr
        step, carried = self.loop(n, body, init, [a is b for a, b in zip(j.invars[nc:nc + nk], j.outvars)])
        out = [carried(k, n) for k in range(nk)]
        for j in range(nk, len(eqn.outvars)):
            v = eqn.outvars[j].aval
            out.append(LArr([dim(d) for d in v.shape], lambda idx, j=j: step(idx[0])[j].at(*idx[1:]), {'u': 'i'}.get(v.dtype.kind, v.dtype.kind)))
        return out

    def p_while(self, ins, p, eqn, shape, kind):
        nc, nb = p['cond_nconsts'], p['body_nconsts']
        cj = p['cond_jaxpr'].jaxpr
        bc, init = ins[nc:nc + nb], ins[nc + nb:]
        if nc or len(cj.eqns) != 1 or cj.eqns[0].primitive.name != 'lt':
            raise Unsupported('loop condition')
        lo, hi = [cj.invars.index(v) for v in cj.eqns[0].invars]

        def body(carry, i):
            return self.eval(p['body_jaxpr'].jaxpr, [self.wrap(c) for c in p['body_jaxpr'].consts], [*bc, *carry])
        n = Lin.of(init[hi].at()) - init[lo].at()
        j = p['body_jaxpr'].jaxpr
        step, carried = self.loop(n, body, init, [a is b for a, b in zip(j.invars[nb:], j.outvars)])
        a, b = carried(lo, Lin(1)).at(), carried(hi, Lin(1)).at()
        if not self.entails('=', a - init[lo].at() - 1) or not self.entails('=', b - init[hi].at()):
            raise Unsupported('loop counter')
        return [carried(k, n) for k in range(len(init))]

    def p_sort(self, ins, p, eqn, shape, kind):
        raise Unsupported('sort')


def all_bound(a):
    """Canonical bound symbols occurring in an atom."""
    at = alg.SPACE.atoms[a]
    out = set()
    if at.kind == 'sqrt':
        for b in alg._all_atoms(at.arg):
            out |= all_bound(b)
    elif at.kind == 'fn':
        for x in at.arg[1]:
            if isinstance(x, Frac):
                for b in alg._all_atoms(x):
                    out |= all_bound(b)
    elif at.kind not in ('sqrt', 'fn') and at.arg and at.arg[0] in ('sum', 'sum~'):
        out.add(at.arg[1])
        for b, _ in at.arg[2]:
            out |= all_bound(b)
    return out


def conj_mono(mono):
    q = Frac(Poly({mono: 1})).conjugate()
    if len(q.num.t) != 1 or q.den or next(iter(q.num.t.values())) != 1:
        raise Unsupported('conjugate of a summand')
    return q


def is_sum(a):
    at = alg.SPACE.atoms[a]
    return bool(at.arg) and at.kind not in ('sqrt', 'fn') and at.arg[0] == 'sum'


def sum_atom(bound, mono, upper):
    S = alg.SPACE
    key = ('sum', bound, mono, upper.key())
    if key in S.by_key:
        return S.by_key[key]
    p = Frac(Poly({mono: 1}))
    if any(is_sum(a) for a, _ in mono):
        # the conjugate, in the normal order of the sums
        name = f'S[{p}]({upper!r})'
        a = S._new(name, 'cplx')
        S.atoms[a].arg = ('sum', bound, mono, upper)
        S.atoms[a].conj = a
        S.by_key[key] = a
        (cm, c), = conj_mono(mono).num.t.items()
        if cm == mono:
            S.atoms[a].kind = 'real'
            return a
        v = MACHINE[-1].sum_value(bound, cm, upper)
        (((b, _),), _), = v.num.t.items()
        if b != a:
            S.atoms[a].conj, S.atoms[b].conj = b, a
        else:
            S.atoms[a].kind = 'real'
        return a
    q = p.conjugate()
    (cm, c), = q.num.t.items()
    if c != 1 or q.den:
        raise Unsupported('conjugate of a summand')
    name = f'S[{p}]({upper!r})'
    a = S._new(name, 'real' if cm == mono else 'cplx')
    S.atoms[a].arg = ('sum', bound, mono, upper)
    S.by_key[key] = a
    if cm == mono:
        s = alg._mono_sign(mono)
        S.atoms[a].sign = '0+' if s else None
    else:
        b = S._new(name + '~', 'cplx')
        S.atoms[b].arg = ('sum', bound, cm, upper)
        S.atoms[a].conj, S.atoms[b].conj = b, a
        S.by_key[('sum', bound, cm, upper.key())] = b
    return a


# ------------------------------------------------------------------ extraction

_take = _lnp._rewriting_take


def _symbolic(x):
    return any(not isinstance(d, int) for d in jnp.shape(x))


def _take_symbolic(arr, idx, *args, **kw):
    """Python indexing by slices and integers of arrays with symbolic dimensions."""
    if not _symbolic(arr):
        return _take(arr, idx, *args, **kw)
    t = idx if isinstance(idx, tuple) else (idx,)
    if not all(i is None or i is Ellipsis or isinstance(i, (int, np.integer, slice)) for i in t) or \
            not any(isinstance(i, slice) for i in t):
        return _take(arr, idx, *args, **kw)
    n = sum(i is not None and i is not Ellipsis for i in t)
    if Ellipsis in t:
        e = t.index(Ellipsis)
        t = t[:e] + (slice(None),) * (arr.ndim - n) + t[e + 1:]
    else:
        t = t + (slice(None),) * (arr.ndim - n)
    start, stop, drop, new = [], [], [], []
    out_ax = 0
    d = 0
    for i in t:
        if i is None:
            new.append(out_ax)
            out_ax += 1
            continue
        size = arr.shape[d]
        if isinstance(i, slice):
            if i.step not in (None, 1):
                return _take(arr, idx, *args, **kw)
            lo = 0 if i.start is None else i.start
            hi = size if i.stop is None else i.stop
            lo = lo + size if isinstance(lo, int) and lo < 0 else lo
            hi = hi + size if isinstance(hi, int) and hi < 0 else hi
            start.append(lo)
            stop.append(hi)
            out_ax += 1
        else:
            lo = size + i if i < 0 else i
            start.append(lo)
            stop.append(lo + 1)
            drop.append(d)
        d += 1
    out = lax.slice(arr, start, stop)
    out = lax.squeeze(out, drop)
    return jnp.expand_dims(out, new) if new else out


def _len(x):
    return x.shape[0] if isinstance(x, jcore.Tracer) and x.ndim else len(x)


@contextlib.contextmanager
def symbolic_slices():
    """Python slices and len() of arrays with symbolic dimensions while tracing."""
    mods = [m for m in cyjax_modules() if 'len' not in vars(m)]
    _lnp._rewriting_take = _take_symbolic
    lax.scan, lax.fori_loop = _scan_symbolic, _fori_symbolic
    jax.jacfwd, jax.jacrev = _jacfwd_symbolic, _jacrev_symbolic
    for m in mods:
        m.len = _len
    try:
        yield
    finally:
        _lnp._rewriting_take = _take
        lax.scan, lax.fori_loop = _scan, _fori
        jax.jacfwd, jax.jacrev = _jacfwd, _jacrev
        for m in mods:
            del m.len


_scan, _fori = lax.scan, lax.fori_loop
_jacfwd, _jacrev = jax.jacfwd, jax.jacrev


def _symbolic_vector(x):
    return getattr(x, 'ndim', None) == 1 and _core.is_symbolic_dim(x.shape[0])


def _jacfwd_symbolic(fun, argnums=0, has_aux=False, holomorphic=False, **kw):
    """The library function takes no symbolic dimensions: derivatives in the directions of the basis."""
    plain = _jacfwd(fun, argnums, has_aux, holomorphic, **kw)

    @functools.wraps(fun)
    def jac(*args, **kwargs):
        if not isinstance(argnums, int) or has_aux or not _symbolic_vector(args[argnums]):
            return plain(*args, **kwargs)
        x = args[argnums]
        k = argnums % len(args)
        push = lambda e: jax.jvp(lambda v: fun(*args[:k], v, *args[k + 1:], **kwargs), (x,), (e,))[1]
        return jax.vmap(push, out_axes=-1)(jnp.eye(x.shape[0], dtype=x.dtype))
    return jac


def _jacrev_symbolic(fun, argnums=0, has_aux=False, holomorphic=False, **kw):
    plain = _jacrev(fun, argnums, has_aux, holomorphic, **kw)

    @functools.wraps(fun)
    def jac(*args, **kwargs):
        if not isinstance(argnums, int) or has_aux or not _symbolic_vector(args[argnums]):
            return plain(*args, **kwargs)
        x = args[argnums]
        k = argnums % len(args)
        out, pull = jax.vjp(lambda v: fun(*args[:k], v, *args[k + 1:], **kwargs), x)
        if out.ndim:
            raise Unsupported('jacrev of an array')
        return pull(jnp.ones((), out.dtype))[0]
    return jac




def _scan_symbolic(f, init, xs=None, length=None, **kw):
    if length is None or not _core.is_symbolic_dim(length):
        return _scan(f, init, xs, length, **kw)
    # the length is given by that of an array instead
    return _scan(lambda c, x: f(c, x[0]), init, (xs, jnp.zeros((length,))), **kw)


def _fori_symbolic(lower, upper, body, init):
    val = lambda d: _core.dimension_as_value(d) if _core.is_symbolic_dim(d) else d
    return _fori(val(lower), val(upper), body, init)


class Key:
    """Random key."""

    def __init__(self, name):
        self.name = name


class Size:
    """Size given as an integer argument."""

    def __init__(self, name):
        self.name = name


class Arr:
    """Argument array with symbolic dimensions, e.g. Arr('z', 'n', 'n+1')."""

    def __init__(self, name, *shape, kind='c', sign=None):
        self.name, self.shape, self.kind, self.sign = name, shape, kind, sign


class Index:
    """Integer argument with lo <= value < hi (terms in the dimensions)."""

    def __init__(self, name, lo, hi):
        self.name, self.lo, self.hi = name, lo, hi


class Prover:
    """Specification side: quantified indices, sums, cases."""
    symbolic = True

    def __init__(self, M):
        self.M = M
        self.results = []

    def index(self, name, size, lo=0):
        """An arbitrary index lo <= i < size; None if the range is empty."""
        lo, size = Lin.of(lo), Lin.of(size)
        if not self.M.less(lo, size):
            return None
        i = Lin.sym(name)
        self.M.facts += [('<', lo - i - 1), ('<', i - size)]
        return i

    def lt(self, a, b):
        return self.M.less(a, b)

    def equal(self, a, b):
        return self.M.equal(a, b)

    def sum(self, n, f):
        return self.M.sum(0, n, f)

    def num(self, i):
        return Lin.of(i).frac()

    def drawn(self, b, k=0):
        """Result number k of the sampler in batch i of b, as a function (i, *index);
        one call for every batch, each with its own key."""
        notes = [x for x in self.M.notes if x[0] == 'drawn']
        self.results.append(('one sampling call per batch', len({(x[1], str(x[3])) for x in notes}) == 1, str(notes)[:200]))
        for _, struct, idx, shape in notes:
            free = [(j, s) for j, x in enumerate(idx) for s in x.syms()]
            if b is None and not free:
                return lambda *i: self.M.element(f'drawn{k}<{struct}>{shape[k][0]}', (*idx, *map(Lin.of, i)), shape[k][1], None)
            if b is not None and len(free) == 1 and idx[free[0][0]].coeff(free[0][1]) == 1 and idx[free[0][0]].c == 0:
                j = free[0][0]
                return lambda i, *r: self.M.element(f'drawn{k}<{struct}>{shape[k][0]}', (*idx[:j], Lin.of(i), *idx[j + 1:], *map(Lin.of, r)),
                                                    shape[k][1], None)
        raise Unsupported('keys of the batches')

    def log(self, x):
        return x.log()

    def sqrt(self, x):
        return x.sqrt()

    def abs(self, x):
        return (x * x.conjugate()).sqrt()

    def exp(self, x):
        return alg.exp(x)

    def negative_part(self, x):
        """x where x < 0, else 0"""
        return Below(x).choose(x, alg.ZERO)

    def inverted(self):
        """(matrix, inverse) of the one inversion."""
        (_, m, r), = [x for x in self.M.notes if x[0] == 'inverse']
        return m, r

    def determinant(self):
        """(matrix, value) of the one determinant."""
        (_, m, r), = [x for x in self.M.notes if x[0] == 'determinant']
        return m, r

    def shape(self, name, got, want):
        ok = len(got) == len(want) and all(self.M.entails('=', g - Lin.of(w)) for g, w in zip(got, want))
        self.results.append((name, bool(ok), f'{got} != {want}'))

    def eq(self, name, got, want):
        d = self.M.number(got) - self.M.number(want)
        if not d.is_zero():
            d = self.M.unify(d)
        self.results.append((name, d.is_zero(), f'{str(d)[:200]}'))

    def same_index(self, name, got, want):
        self.results.append((name, self.M.entails('=', Lin.of(got) - want), f'{got} != {want}'))

    def le(self, name, a, b):
        """a <= b, from the maxima of the path."""
        d = self.M.number(a) - self.M.number(b)
        self.results.append((name, d.is_zero() or alg.known_sign(d) in ('-', '0-') or self._order(d) or self._path(a, b), str(d)[:200]))

    def _path(self, a, b):
        from . import smt
        return bool(smt.prove_order(self.M.ctx, self.M.number(a), self.M.number(b), False)[0])

    def _order(self, d):
        return any((d - f).is_zero() or alg.known_sign(d / f) in ('+', '0+') or self._multiple(d, f) for f in self._facts(d) if not f.is_zero())

    def _multiple(self, d, f):
        """d is f times a positive quotient of denominators."""
        den = [alg.ONE, alg.ONE]
        for k, x in enumerate((d, f)):
            for p, e in x.den.items():
                den[k] = den[k] * Frac(p) ** e
        for c in (1, -1):
            if (Frac(d.num) - c * Frac(f.num)).is_zero():
                return alg.known_sign(c * den[1] / den[0]) in ('+', '0+')
        return False

    def _facts(self, d):
        """Instances x_k^2 - x_j^2 <= 0 of the maxima at the index terms in d."""
        out = []
        idx = {}
        for a in alg._all_atoms(d):
            at = alg.SPACE.atoms[a]
            if at.kind not in ('sqrt', 'fn') and at.arg and at.arg[0] in ('elem', 'elem~'):
                for i in at.arg[2]:
                    idx[i.key()] = i
        for s, j, n, val in self.M.quant:
            for i in list(idx.values()):
                if self.M.entails('<', -i - 1) and self.M.entails('<', i - n):
                    x, y = val(i), val(j)
                    out += [x - y, x * x - y * y]
        return out


def parse(e):
    """'n+1' -> Lin."""
    if isinstance(e, (int, np.integer)):
        return Lin(int(e))
    if isinstance(e, Lin):
        return e
    out, sign, tok = Lin(0), 1, ''
    for ch in str(e).replace(' ', '') + '+':
        if ch in '+-':
            if tok:
                if '*' in tok:
                    k, v = tok.split('*')
                    out = out + Lin.sym(v).scale(sign * int(k))
                else:
                    out = out + (Lin(sign * int(tok)) if tok.isdigit() else Lin.sym(tok).scale(sign))
            tok, sign = '', 1 if ch == '+' else -1
        else:
            tok += ch
    return out


def prove(fn, args, post, pre=(), limit=400):
    """Prove post for every size.  Returns (list of (name, ok, detail), paths, primitives)."""
    used = sorted({s for a in args if isinstance(a, Arr) for d in a.shape for s in parse(d).syms()} | {a.name for a in args if isinstance(a, Size)})
    ctxs = {}
    if used:
        ds = shape_poly._parse_spec(','.join(used), (None,) * len(used))
        ctxs = dict(zip(used, ds))

    def dimexpr(e):
        t = parse(e)
        out = t.c
        for s, k in t.t:
            out = out + k * ctxs[s]
        return out
    structs = []
    for a in args:
        if isinstance(a, Arr):
            structs.append(jax.ShapeDtypeStruct(tuple(dimexpr(d) for d in a.shape), float if a.kind == 'r' else complex))
        elif isinstance(a, Index):
            structs.append(jax.ShapeDtypeStruct((), int))
        elif isinstance(a, Key):
            structs.append(jax.ShapeDtypeStruct((2,), np.uint32))
    store = {}

    def flat(*xs):
        it = iter(xs)
        out = fn(*[ctxs[a.name] if isinstance(a, Size) else next(it) for a in args])
        leaves, tree = jax.tree_util.tree_flatten(out)
        store['tree'] = tree
        return leaves
    with symbolic_slices():
        closed = jax.make_jaxpr(flat)(*structs)
    results, paths, prims = {}, 0, set()

    def go(ctx):
        M = Machine(ctx)
        MACHINE.append(M)
        try:
            for p in pre:                      # p >= 0
                M.facts.append(('<', -parse(p) - 1))
            syms = []
            for a in args:
                if isinstance(a, Arr):
                    shape = [parse(d) for d in a.shape]
                    for d in shape:
                        if d.const() is None:
                            M.facts.append(('<', -d - 1))
                    syms.append(LArr(shape, lambda idx, a=a: M.element(a.name, idx, a.kind, a.sign), 'f' if a.kind == 'r' else 'c'))
                elif isinstance(a, Size):
                    M.facts.append(('<', -Lin.sym(a.name) - 1))
                elif isinstance(a, Key):
                    syms.append(key_larr(('key', a.name)))
                else:
                    i = Lin.sym(a.name)
                    M.facts += [('<', parse(a.lo) - i - 1), ('<', i - parse(a.hi))]
                    syms.append(LArr((), lambda idx, i=i: i, 'i'))
            if not SOLVER.sat(M.facts):
                raise Unsupported('the preconditions exclude each other')
            outs = M.run(closed, syms)
            out = jax.tree_util.tree_unflatten(store['tree'], outs)
            P = Prover(M)
            it = iter(syms)
            post(out, [Lin.sym(a.name) if isinstance(a, Size) else next(it) if not isinstance(a, Index) else next(it).at() for a in args], P)
            return M, P
        finally:
            MACHINE.pop()
    for ctx, (M, P) in explore(go, limit):
        paths += 1
        prims |= M.prims
        for name, ok, detail in P.results:
            results.setdefault(name, []).append((ok, detail))
    return results, paths, prims


# ------------------------------------------------------------------ contracts for every size

class Values:
    """Array of numbers with the interface of LArr."""

    def __init__(self, a):
        self.a = np.asarray(a)
        self.shape = self.a.shape

    def at(self, *idx):
        v = self.a[idx]
        return int(v) if self.a.dtype.kind in 'iu' else v


class NumberProver:
    """The specification on numbers, for one choice of the quantified indices."""
    symbolic = False

    def __init__(self, P, rng):
        self.P, self.rng = P, rng

    def index(self, name, size, lo=0):
        return int(self.rng.integers(lo, size)) if lo < size else None

    def lt(self, a, b):
        return a < b

    def equal(self, a, b):
        return a == b

    def sum(self, n, f):
        return sum((f(k) for k in range(n)), 0)

    def num(self, i):
        return i

    def log(self, x):
        return np.log(x)

    def sqrt(self, x):
        return np.sqrt(x)

    def abs(self, x):
        return np.abs(x)

    def exp(self, x):
        return np.exp(x)

    def negative_part(self, x):
        return min(x, 0.)

    def shape(self, name, got, want):
        self.P.same(name, tuple(got), tuple(want))

    def eq(self, name, got, want):
        self.P.eq(name, np.asarray(got), np.asarray(want))

    def same_index(self, name, got, want):
        self.P.same(name, int(got), int(want))

    def le(self, name, a, b):
        self.P.le(name, a, b)


def size_of(e, env):
    t = parse(e)
    return t.c + sum(k * env[s] for s, k in t.t)


def run(C, function, label, fn, args, post, pre=(), sizes=(), assume=(), tries=2, seconds=40, gen=None, lib=False, extra=()):
    """Contract of fn for arrays of every size: proved symbolically, and evaluated on
    the real code at the given (larger) sizes, a list of assignments of the dimensions."""
    backend = 'all sizes (normal form, z3)'
    if C.replay is None and C.enough():
        C.record(function, f'{label}, every size', None, 'none', 'stopped after failures', 0.0, 'every size')
        return
    if C.replay is None:
        alg.reset()
        activate(lib, extra=extra)
        t0, q0 = time.time(), SOLVER.queries
        DEADLINE[0] = t0 + seconds
        try:
            res, paths, prims = prove(fn, args, post, pre)
            C.primitives |= prims
            if not res:
                raise Unsupported('no obligations')
            for name, rs in res.items():
                bad = [d for ok, d in rs if not ok]
                C.record(function, f'{label}, every size: {name}', None if bad else True, backend, f'not proved: {bad[:1]}', 0.0,
                         f'every size, {len(rs)} paths')
            for a in assume:
                C.assume(a)
        except Exception as e:       # outside the fragment: the cases of fixed size remain
            if os.environ.get('CJV_DEBUG'):
                traceback.print_exc()
            C.record(function, f'{label}, every size', None, backend, f'{type(e).__name__}: {e}'[:200], 0.0, 'every size')
        finally:
            DEADLINE[0] = float('inf')
            alg.reset()
            activate()
        C.solver_time[backend] += time.time() - t0
    rng = np.random.default_rng(C.seed)
    for env in sizes:
        for t in range(tries):
            vals = []
            for a in args:
                if isinstance(a, Index):
                    lo, hi = size_of(a.lo, env), size_of(a.hi, env)
                    vals.append([lo, hi - 1, int(rng.integers(lo, hi))][t % 3])
                elif isinstance(a, Size):
                    vals.append(env[a.name])
                elif isinstance(a, Key):
                    vals.append(Sym(a.name, (2,), 'k'))
                else:
                    vals.append(Sym(a.name, tuple(size_of(d, env) for d in a.shape), 'r' if a.kind == 'r' else 'c', sign=a.sign))

            def number_post(out, a, P):
                wrap = lambda x: Values(x)
                o = jax.tree_util.tree_map(wrap, out)
                r = np.random.default_rng(1)
                for _ in range(20):
                    post(o, [int(x) if isinstance(y, (Index, Size)) else Values(x) for x, y in zip(a, args)], NumberProver(P, r))
            C.run(Case(function, f'{label}: {env} {[v for v in vals if isinstance(v, int)]}', fn, tuple(vals), number_post,
                       symbolic=False, tries=1, scope=str(env), gen=gen and (lambda rng, env=env: gen(rng, env))))
