"""Exact scalars: rational functions over named atoms.

A value is num/den with num a sparse polynomial with rational coefficients and
den a product of polynomial factors kept in factored form.  Atoms are

* ``i``          the imaginary unit (atom 0), reduced by i*i = -1,
* variables      complex (with a partner atom for the conjugate) or real,
* ``sqrt(x)``    reduced by sqrt(x)**2 = x,
* roots          reduced by the polynomial equation they satisfy,
* function atoms log(x), exp(x), f(x, ...) keyed by the normal form of x.

Two values are equal as functions iff the numerator of their difference is the
zero polynomial, provided the atoms are algebraically independent up to the
listed reductions; if they are not, equality of normal forms is still sound
(a zero numerator is zero under every interpretation of the atoms).
"""
from __future__ import annotations

import math
from fractions import Fraction
from functools import lru_cache

import numpy as np


class Unsupported(Exception):
    """The verifier has no rule for a construct (never a violation)."""


class Undefined(Exception):
    """Evaluation divides by zero or reads outside an array."""


class TooLarge(Unsupported):
    """Expression exceeded the size budget."""


MAX_TERMS = 400_000

# values the specification divides by or takes the logarithm of, while recording
RECORD = None


class _Atom:
    __slots__ = ('id', 'name', 'conj', 'kind', 'arg', 'red_pow', 'red_to',
                 'sign', 'nonzero')

    def __init__(self, id, name, kind):
        self.id = id
        self.name = name
        self.kind = kind
        self.conj = id
        self.arg = None
        self.red_pow = None
        self.red_to = None
        self.sign = None       # '+' strictly positive, '0+' nonnegative
        self.nonzero = False


class Space:
    """Registry of atoms."""

    def __init__(self):
        self.atoms: list[_Atom] = []
        self.by_key = {}
        self.reducible = set()
        self.gram = {}
        self.unit = {}      # atoms of modulus one -> partner (= inverse)
        i = self._new('i', 'unit')
        assert i == 0

    def _new(self, name, kind):
        a = _Atom(len(self.atoms), name, kind)
        self.atoms.append(a)
        return a.id

    def real(self, name, sign=None):
        key = ('var', name)
        if key not in self.by_key:
            a = self._new(name, 'real')
            self.atoms[a].sign = sign
            if sign == '+':
                self.atoms[a].nonzero = True
            self.by_key[key] = a
        return self.by_key[key]

    def cplx(self, name):
        key = ('var', name)
        if key not in self.by_key:
            a = self._new(name, 'cplx')
            b = self._new(name + '~', 'cplx')
            self.atoms[a].conj = b
            self.atoms[b].conj = a
            self.by_key[key] = a
        return self.by_key[key]

    def fn(self, name, args, real=None):
        """Atom for an uninterpreted function value; conj commutes with it."""
        key = ('fn', name, tuple(x.key() if isinstance(x, Frac) else x for x in args))
        if key in self.by_key:
            return self.by_key[key]
        label = f'{name}({", ".join(str(x)[:60] for x in args)})'
        a = self._new(label, 'fn')
        self.atoms[a].arg = (name, args)
        self.by_key[key] = a
        cargs = tuple(x.conjugate() if isinstance(x, Frac) else x for x in args)
        ckey = ('fn', name, tuple(x.key() if isinstance(x, Frac) else x for x in cargs))
        if real or ckey == key:
            pass
        else:
            b = self._new(label + '~', 'fn')
            self.atoms[b].arg = (name, cargs)
            self.atoms[a].conj = b
            self.atoms[b].conj = a
            self.by_key[ckey] = b
        return a


SPACE = Space()


def reset():
    global SPACE
    SPACE = Space()
    _mul_cache.clear()


_mul_cache = {}


def _mono_mul(a, b):
    if not a:
        return b
    if not b:
        return a
    out = []
    i = j = 0
    la, lb = len(a), len(b)
    while i < la and j < lb:
        x, y = a[i], b[j]
        if x[0] == y[0]:
            e = x[1] + y[1]
            out.append((x[0], e))
            i += 1
            j += 1
        elif x[0] < y[0]:
            out.append(x)
            i += 1
        else:
            out.append(y)
            j += 1
    out.extend(a[i:])
    out.extend(b[j:])
    return tuple(out)


class Poly:
    """Sparse polynomial, immutable."""
    __slots__ = ('t', '_h')

    def __init__(self, t):
        self.t = t
        self._h = None

    def key(self):
        if self._h is None:
            self._h = frozenset(self.t.items())
        return self._h

    def __hash__(self):
        return hash(self.key())

    def __eq__(self, o):
        return self.t == o.t

    @property
    def zero(self):
        return not self.t

    def const(self):
        """Coefficient if constant rational, else None."""
        if not self.t:
            return 0
        if len(self.t) == 1 and () in self.t:
            return self.t[()]
        return None

    def add(self, o):
        if len(self.t) < len(o.t):
            self, o = o, self
        t = dict(self.t)
        for m, c in o.t.items():
            v = t.get(m, 0) + c
            if v:
                t[m] = v
            else:
                t.pop(m, None)
        return Poly(t)

    def neg(self):
        return Poly({m: -c for m, c in self.t.items()})

    def scale(self, c):
        if c == 1:
            return self
        if not c:
            return PZERO
        return Poly({m: v * c for m, v in self.t.items()})

    def mul(self, o):
        """Raw product; i is reduced, other reducible atoms are not."""
        if not self.t or not o.t:
            return PZERO
        if len(self.t) * len(o.t) > 20 * MAX_TERMS:
            raise TooLarge('product too large')
        t = {}
        get = t.get
        for m1, c1 in self.t.items():
            for m2, c2 in o.t.items():
                m = _mono_mul(m1, m2)
                c = c1 * c2
                if m and m[0][0] == 0 and m[0][1] > 1:
                    e = m[0][1]
                    if e & 2:
                        c = -c
                    m = ((0, 1),) + m[1:] if e & 1 else m[1:]
                v = get(m, 0) + c
                if v:
                    t[m] = v
                else:
                    del t[m]
            if len(t) > MAX_TERMS:
                raise TooLarge('polynomial too large')
        return Poly(t)

    def pow(self, n):
        out = PONE
        base = self
        while n:
            if n & 1:
                out = out.mul(base)
            n >>= 1
            if n:
                base = base.mul(base)
        return out

    def conj(self):
        atoms = SPACE.atoms
        t = {}
        for m, c in self.t.items():
            if m and m[0][0] == 0:
                c = -c
            mm = tuple(sorted((atoms[a].conj, e) for a, e in m))
            t[mm] = t.get(mm, 0) + c
        return Poly({m: c for m, c in t.items() if c})

    def needs_reduction(self):
        red = SPACE.reducible
        unit = SPACE.unit
        if not red and not unit:
            return False
        atoms = SPACE.atoms
        for m in self.t:
            for a, e in m:
                if a in red and e >= atoms[a].red_pow:
                    return True
                if a in unit and unit[a] > a and any(b == unit[a] for b, _ in m):
                    return True
        return False

    def atoms(self):
        return {a for m in self.t for a, _ in m}

    def content_mono(self):
        """Largest monomial dividing every term (excluding i)."""
        it = iter(self.t)
        try:
            g = dict(next(it))
        except StopIteration:
            return ()
        g.pop(0, None)
        for m in it:
            if not g:
                return ()
            d = dict(m)
            g = {a: min(e, d[a]) for a, e in g.items() if a in d}
        return tuple(sorted(g.items()))

    def div_mono(self, mono):
        if not mono:
            return self
        d = dict(mono)
        out = {}
        for m, c in self.t.items():
            out[tuple((a, e - d.get(a, 0)) for a, e in m if e != d.get(a, 0))] = c
        return Poly(out)

    def lead(self):
        """Deterministic leading (monomial, coefficient)."""
        m = max(self.t, key=lambda m: (sum(e for _, e in m), m))
        return m, self.t[m]

    def __str__(self):
        if not self.t:
            return '0'
        atoms = SPACE.atoms
        parts = []
        for m, c in sorted(self.t.items(), key=lambda kv: kv[0]):
            s = '*'.join(atoms[a].name + (f'^{e}' if e > 1 else '') for a, e in m)
            if not s:
                s = str(c)
            elif c == -1:
                s = '-' + s
            elif c != 1:
                s = f'{c}*{s}'
            parts.append(s)
        return ' + '.join(parts).replace('+ -', '- ')


PZERO = Poly({})
PONE = Poly({(): 1})


def _norm_coeff(c):
    if isinstance(c, Fraction) and c.denominator == 1:
        return c.numerator
    return c


PI_ATOM_NAME = 'pi'


def pi():
    return Frac.atom(SPACE.real(PI_ATOM_NAME, '+'))


_PI = math.pi


@lru_cache(None)
def _recognise(x: float):
    """Read a float literal as q * pi**k with simple rational q.

    Literals that are not within a few ulp of such a number denote their exact
    binary value.
    """
    if x == 0:
        return Fraction(0), 0
    if x == int(x) and abs(x) < 2**53:
        return Fraction(int(x)), 0
    f = Fraction(x)
    if f.denominator <= 4096:
        return f, 0
    for k in (0, 1, -1, 2, -2, 3, -3, 4, -4, 5, -5, 6, -6):
        y = x / _PI ** k
        q = Fraction(y).limit_denominator(5040)
        if q and abs(float(q) - y) <= 4e-16 * abs(y) * (1 + abs(k)):
            return q, k
    q = Fraction(x).limit_denominator(10**7)
    if q and abs(float(q) - x) <= 2e-16 * abs(x):
        return q, 0
    return f, 0


class Frac:
    """num / prod(factor**e)."""
    __slots__ = ('num', 'den', '_k')

    def __init__(self, num, den=None):
        self.num = num
        self.den = den or {}
        self._k = None

    # -- constructors
    @staticmethod
    def atom(a):
        return Frac(Poly({((a, 1),): 1}))

    @staticmethod
    def const(c):
        if isinstance(c, Frac):
            return c
        if isinstance(c, (bool, np.bool_)):
            c = int(c)
        if isinstance(c, (int, np.integer)):
            c = int(c)
            return Frac(Poly({(): c})) if c else ZERO
        if isinstance(c, Fraction):
            c = _norm_coeff(c)
            return Frac(Poly({(): c})) if c else ZERO
        if isinstance(c, (float, np.floating)):
            c = float(c)
            if not math.isfinite(c):
                raise Undefined(f'non-finite constant {c}')
            q, k = _recognise(c)
            out = Frac.const(q)
            if k:
                out = out * pi() ** k
            return out
        if isinstance(c, (complex, np.complexfloating)):
            c = complex(c)
            re = Frac.const(c.real)
            if c.imag == 0:
                return re
            return re + I * Frac.const(c.imag)
        raise Unsupported(f'constant of type {type(c)}')

    # -- structure
    def key(self):
        if self._k is None:
            self._k = (self.num.key(), frozenset(self.den.items()))
        return self._k

    def is_zero(self):
        return self.num.zero

    def as_const(self):
        """Rational value or None."""
        if self.den:
            return None
        return self.num.const()

    # -- arithmetic
    def _clean(self):
        """Reduce reducible atoms, cancel common monomials."""
        num, den = self.num, self.den
        if num.zero:
            return ZERO
        if num.needs_reduction():
            return _reduce(num, den)
        if den:
            mono = num.content_mono()
            if mono:
                d = dict(mono)
                cancel = []
                newden = None
                for p, e in den.items():
                    if len(p.t) == 1:
                        (m,) = p.t
                        if len(m) == 1 and m[0][1] == 1 and m[0][0] in d:
                            k = min(e, d[m[0][0]])
                            if newden is None:
                                newden = dict(den)
                            if e == k:
                                newden.pop(p)
                            else:
                                newden[p] = e - k
                            cancel.append((m[0][0], k))
                if cancel:
                    num = num.div_mono(tuple(sorted(cancel)))
                    den = newden
            # cancel a denominator factor that equals the numerator up to scale
            if den and len(num.t) > 1:
                nn, c = _monic(num)
                if nn in den:
                    den = dict(den)
                    den[nn] -= 1
                    if not den[nn]:
                        del den[nn]
                    num = Poly({(): c})
        return Frac(num, den)

    def __add__(self, o):
        o = _coerce(o)
        if o is NotImplemented:
            return o
        if self.num.zero:
            return o
        if o.num.zero:
            return self
        if not self.den and not o.den:
            return Frac(self.num.add(o.num))
        if self.den == o.den:
            return Frac(self.num.add(o.num), self.den)._clean()
        den = dict(self.den)
        for p, e in o.den.items():
            if den.get(p, 0) < e:
                den[p] = e
        a = self.num
        b = o.num
        for p, e in den.items():
            k = e - self.den.get(p, 0)
            if k:
                a = a.mul(p.pow(k))
            k = e - o.den.get(p, 0)
            if k:
                b = b.mul(p.pow(k))
        return Frac(a.add(b), den)._clean()

    __radd__ = __add__

    def __neg__(self):
        return Frac(self.num.neg(), self.den)

    def __pos__(self):
        return self

    def __sub__(self, o):
        o = _coerce(o)
        if o is NotImplemented:
            return o
        return self + (-o)

    def __rsub__(self, o):
        o = _coerce(o)
        if o is NotImplemented:
            return o
        return o + (-self)

    def __mul__(self, o):
        o = _coerce(o)
        if o is NotImplemented:
            return o
        if self.num.zero or o.num.zero:
            return ZERO
        if not self.den and not o.den:
            num = self.num.mul(o.num)
            if num.needs_reduction():
                return _reduce(num, {})
            return Frac(num)
        den = dict(self.den)
        for p, e in o.den.items():
            den[p] = den.get(p, 0) + e
        # cancel a factor of one against an equal numerator of the other
        return Frac(self.num.mul(o.num), den)._clean()

    __rmul__ = __mul__

    def inverse(self):
        if RECORD is not None:
            RECORD.append(self)
        if self.num.zero:
            raise Undefined('division by zero')
        num = PONE
        for p, e in self.den.items():
            num = num.mul(p.pow(e))
        c = self.num.const()
        if c is not None:
            return Frac(num.scale(Fraction(1) / c if c != 1 else 1))._canon()
        # pure unit multiples of i
        if len(self.num.t) == 1:
            (m, c), = self.num.t.items()
            den = {}
            for a, e in m:
                if a == 0:
                    num = num.mul(Poly({((0, 1),): -1}))
                elif a in SPACE.unit:
                    num = num.mul(Poly({((SPACE.unit[a], e),): 1}))
                else:
                    den[Poly({((a, 1),): 1})] = e
            return Frac(num.scale(Fraction(1) / c if c != 1 else 1), den)._clean()._canon()
        mono = self.num.content_mono()
        rest = self.num.div_mono(mono)
        rest, c = _monic(rest)
        den = {rest: 1}
        for a, e in mono:
            if a in SPACE.unit:
                num = num.mul(Poly({((SPACE.unit[a], e),): 1}))
            else:
                den[Poly({((a, 1),): 1})] = e
        if c != 1:
            num = num.scale(Fraction(1) / c)
        return Frac(num, den)._clean()._canon()

    def _canon(self):
        t = self.num.t
        if any(isinstance(c, Fraction) and c.denominator == 1 for c in t.values()):
            return Frac(Poly({m: _norm_coeff(c) for m, c in t.items()}), self.den)
        return self

    def __truediv__(self, o):
        o = _coerce(o)
        if o is NotImplemented:
            return o
        return self * o.inverse()

    def __rtruediv__(self, o):
        o = _coerce(o)
        if o is NotImplemented:
            return o
        return o * self.inverse()

    def __pow__(self, n):
        if isinstance(n, Frac):
            c = n.as_const()
            if c is None:
                return (n * self.log()).exp()
            n = c
        if isinstance(n, (float, np.floating)):
            q, k = _recognise(float(n))
            if k:
                raise Unsupported('power pi')
            n = q
        if isinstance(n, Fraction):
            if n.denominator == 1:
                n = n.numerator
            elif n.denominator == 2:
                return self.sqrt() ** n.numerator
            else:
                return (Frac.const(n) * self.log()).exp()
        n = int(n)
        if n < 0:
            return self.inverse() ** (-n)
        out = ONE
        base = self
        while n:
            if n & 1:
                out = out * base
            n >>= 1
            if n:
                base = base * base
        return out

    def __rpow__(self, o):
        return (self * Frac.const(o).log()).exp()

    # -- functions (numpy calls these on object arrays)
    def conjugate(self):
        den = {}
        c = 1
        for p, e in self.den.items():
            q, k = _monic(p.conj())
            den[q] = den.get(q, 0) + e
            c = c * Fraction(1) / k ** e if k != 1 else c
        return Frac(self.num.conj().scale(c), den)

    conj = conjugate

    @property
    def real(self):
        return (self + self.conjugate()) * Fraction(1, 2)

    @property
    def imag(self):
        return (self - self.conjugate()) * (I * Fraction(-1, 2))

    def is_real(self):
        return (self - self.conjugate()).is_zero()

    def sqrt(self):
        return sqrt(self)

    def __abs__(self):
        return absolute(self)

    def log(self):
        return log(self)

    def exp(self):
        return exp(self)

    def cos(self):
        e = exp(I * self)
        return (e + exp(-(I * self))) * Fraction(1, 2)

    def sin(self):
        return (exp(I * self) - exp(-(I * self))) * (I * Fraction(-1, 2))

    def __eq__(self, o):
        o = _coerce(o)
        if o is NotImplemented:
            return False
        return (self - o).is_zero()

    def __hash__(self):
        return hash(self.key())

    def __str__(self):
        n = str(self.num)
        if not self.den:
            return n
        d = '*'.join(f'({p})' + (f'^{e}' if e > 1 else '') for p, e in self.den.items())
        return f'({n})/({d})'

    def __repr__(self):
        s = str(self)
        return s if len(s) < 200 else s[:200] + '...'


def _monic(p):
    if p.zero:
        raise Undefined('zero denominator')
    _, c = p.lead()
    if c == 1:
        return p, 1
    return Poly({m: _norm_coeff(Fraction(v) / c) for m, v in p.t.items()}), c


def _coerce(o):
    if isinstance(o, Frac):
        return o
    if isinstance(o, (int, float, complex, Fraction, np.number, np.bool_)):
        return Frac.const(o)
    return NotImplemented


def _reduce(num, den):
    """Substitute reducible powers; returns a clean Frac."""
    atoms = SPACE.atoms
    red = SPACE.reducible
    groups = {}
    unit = SPACE.unit
    for m, c in num.t.items():
        pull = []
        rest = []
        if unit:
            d = dict(m)
            for a in list(d):
                b = unit.get(a)
                if b is not None and d.get(b) and d.get(a):
                    k = min(d[a], d[b])
                    d[a] -= k
                    d[b] -= k
            m = tuple((a, e) for a, e in sorted(d.items()) if e)
        for a, e in m:
            if a in red and e >= atoms[a].red_pow:
                k, r = divmod(e, atoms[a].red_pow)
                # roots: reduce one step at a time (red_to contains the atom)
                pull.append((a, k))
                if r:
                    rest.append((a, r))
            else:
                rest.append((a, e))
        g = groups.setdefault(tuple(pull), {})
        v = g.get(tuple(rest), 0) + c
        if v:
            g[tuple(rest)] = v
        else:
            g.pop(tuple(rest), None)
    out = ZERO
    for pull, t in groups.items():
        term = Frac(Poly(t))
        for a, k in pull:
            term = term * atoms[a].red_to ** k
        out = out + term
    return Frac(out.num, _merge_den(out.den, den))._clean()


def _merge_den(a, b):
    if not b:
        return a
    out = dict(a)
    for p, e in b.items():
        out[p] = out.get(p, 0) + e
    return out


ZERO = Frac(PZERO)
ONE = Frac(PONE)
I = Frac(Poly({((0, 1),): 1}))


# ---------------------------------------------------------------- functions

def _isqrt_rational(q):
    q = Fraction(q)
    if q < 0:
        return None
    n, d = math.isqrt(q.numerator), math.isqrt(q.denominator)
    if n * n == q.numerator and d * d == q.denominator:
        return Fraction(n, d)
    return None


def _content(p):
    """Positive rational c such that p / c has coprime integer coefficients."""
    cs = [Fraction(c) for c in p.t.values()]
    return Fraction(math.gcd(*(c.numerator for c in cs)), math.lcm(*(c.denominator for c in cs)))


def _poly_sqrt_atom(p):
    """Positive root of a polynomial as atom (reduced)."""
    f = Frac(p)
    key = ('sqrt', p.key())
    a = SPACE.by_key.get(key)
    if a is None:
        a = SPACE._new(f'sqrt({str(p)[:80]})', 'sqrt')
        at = SPACE.atoms[a]
        at.arg = f
        at.red_pow = 2
        at.red_to = f
        SPACE.reducible.add(a)
        SPACE.by_key[key] = a
        pc = p.conj()
        if f.is_real():
            # only used where the argument is non-negative
            at.sign = '0+'
        elif ('sqrt', pc.key()) not in SPACE.by_key:
            b = SPACE._new(f'sqrt({str(pc)[:80]})', 'sqrt')
            bt = SPACE.atoms[b]
            bt.arg = Frac(pc)
            bt.red_pow = 2
            bt.red_to = Frac(pc)
            SPACE.reducible.add(b)
            SPACE.by_key[('sqrt', pc.key())] = b
            at.conj = b
            bt.conj = a
    return Frac.atom(a)


def sqrt(x):
    """Square root of a non-negative real value (callers ensure this)."""
    x = _coerce(x)
    if x.is_zero():
        return ZERO
    # (n/d): pull out even powers of denominator factors that are real
    num = x.num
    out = ONE
    for p, e in x.den.items():
        k, r = divmod(e, 2)
        if not Frac(p).is_real():
            raise Unsupported('sqrt with complex denominator')
        if k:
            base = absolute(Frac(p))
            out = out / base ** k
        if r:
            s = known_sign(Frac(p))
            if s in ('+', '0+'):
                out = out / _sqrt_poly(p)
            else:
                num = num.mul(p)
                out = out / absolute(Frac(p))
    return out * _sqrt_poly(num)


def _sqrt_poly(p):
    mono = p.content_mono()
    rest = p.div_mono(mono)
    # pull z z~ pairs and even real powers and positive atoms out as moduli
    out = ONE
    d = dict(mono)
    atoms = SPACE.atoms
    left = []
    for a, e in sorted(d.items()):
        e = d[a]
        if not e:
            continue
        at = atoms[a]
        if at.conj != a:
            b = at.conj
            k = min(e, d.get(b, 0))
            if k:
                out = out * absolute(Frac.atom(a)) ** k
                d[a] -= k
                d[b] -= k
                e = d[a]
            if e:
                left.append((a, e))
                d[a] = 0
        else:
            k, r = divmod(e, 2)
            if k:
                out = out * absolute(Frac.atom(a)) ** k
            if r:
                if at.sign in ('+', '0+'):
                    out = out * _poly_sqrt_atom(Poly({((a, 1),): 1}))
                else:
                    left.append((a, 1))
    if left:
        rest = rest.mul(Poly({tuple(sorted(left)): 1}))
    # scale out the rational content of a monomial
    if len(rest.t) == 1:
        (m, c), = rest.t.items()
        s = _isqrt_rational(c)
        if s is not None:
            out = out * Frac.const(s)
            rest = Poly({m: 1})
    c = rest.const()
    if c == 1:
        return out
    if c is None:
        k = _content(rest)
        r = _isqrt_rational(k)
        if k != 1 and r is not None:
            rest = rest.scale(_norm_coeff(1 / k))
            out = out * Frac.const(r)
    ab = _perfect_norm(rest)
    if ab is not None:
        return out * ab
    return out * _poly_sqrt_atom(rest)


def _perfect_norm(p):
    """If p == n * conj(n) was created by absolute(n), reuse its atom."""
    a = SPACE.by_key.get(('norm', p.key()))
    return None if a is None else Frac.atom(a)


def absolute(x):
    x = _coerce(x)
    if x.is_zero():
        return ZERO
    s = known_sign(x)
    if s in ('+', '0+'):
        return x
    if s in ('-', '0-'):
        return -x
    num = _abs_poly(x.num)
    for p, e in x.den.items():
        num = num / _abs_poly(p) ** e
    return num


def _abs_poly(p):
    s = known_sign(Frac(p))
    if s in ('+', '0+'):
        return Frac(p)
    mono = p.content_mono()
    rest = p.div_mono(mono)
    out = ONE
    for a, e in mono:
        out = out * _abs_atom(a) ** e
    if len(rest.t) == 1:
        (m, c), = rest.t.items()
        # m is () or i
        return out * Frac.const(abs(c))
    s = known_sign(Frac(rest))
    if s in ('+', '0+'):
        return out * Frac(rest)
    if s in ('-', '0-'):
        return out * -Frac(rest)
    k = _content(rest)
    if k != 1:
        rest = rest.scale(_norm_coeff(1 / k))
        out = out * Frac.const(k)
    n2 = rest.mul(rest.conj())
    a = _poly_sqrt_atom(n2)
    (m,) = a.num.t
    SPACE.atoms[m[0][0]].sign = '0+'
    return out * a


def _abs_atom(a):
    at = SPACE.atoms[a]
    if at.sign in ('+', '0+'):
        return Frac.atom(a)
    if a in SPACE.unit:
        return ONE
    n2 = Poly({((a, 1),): 1}).mul(Poly({((at.conj, 1),): 1}))
    s = _poly_sqrt_atom(n2)
    (m,) = s.num.t
    SPACE.atoms[m[0][0]].sign = '+' if at.nonzero else '0+'
    return s


def log(x):
    x = _coerce(x)
    if RECORD is not None:
        RECORD.append(x)
    c = x.as_const()
    if c == 1:
        return ZERO
    # log of a single exp atom with real argument
    if not x.den and len(x.num.t) == 1:
        (m, k), = x.num.t.items()
        if k == 1 and len(m) == 1 and m[0][1] == 1:
            at = SPACE.atoms[m[0][0]]
            if at.kind == 'fn' and at.arg[0] == 'exp' and at.arg[1][0].is_real():
                return at.arg[1][0]
    # positive monomials split: log(a^m b^n c) for positive atoms
    terms = []
    ok = True
    if len(x.num.t) == 1:
        (m, k), = x.num.t.items()
        if k <= 0:
            ok = False
        else:
            if k != 1:
                terms.append((Fraction(k), None))
            for a, e in m:
                if SPACE.atoms[a].sign != '+':
                    ok = False
                terms.append((e, Poly({((a, 1),): 1})))
        for p, e in x.den.items():
            if known_sign(Frac(p)) != '+':
                ok = False
            terms.append((-e, p))
        if ok and len(terms) > 1:
            out = ZERO
            for e, p in terms:
                if p is None:
                    out = out + _log_const(e)
                else:
                    out = out + Frac.const(e) * _log_atom(Frac(p))
            return out
        if ok and len(terms) == 1:
            e, p = terms[0]
            if p is None:
                return _log_const(e)
            return Frac.const(e) * _log_atom(Frac(p))
    s = known_sign(x)
    if s == '+' and x.den and all(known_sign(Frac(p)) == '+' for p in x.den):
        out = _log_atom(Frac(x.num))
        for p, e in x.den.items():
            out = out - Frac.const(e) * _log_atom(Frac(p))
        return out
    return _log_atom(x)


def _log_const(c):
    c = Fraction(c)
    if c < 1:
        return -_log_atom(Frac.const(1 / c))
    return _log_atom(Frac.const(c))


def _log_atom(x):
    at = None
    if not x.den and len(x.num.t) == 1:
        (m, k), = x.num.t.items()
        if k == 1 and len(m) == 1 and m[0][1] == 1:
            at = SPACE.atoms[m[0][0]]
    if at is not None and at.kind == 'fn' and at.arg[0] == 'exp' and at.arg[1][0].is_real():
        return at.arg[1][0]
    if at is not None and at.kind == 'sqrt' and known_sign(at.arg) == '+':
        return log(at.arg) * Fraction(1, 2)
    return Frac.atom(SPACE.fn('log', (x,)))


def exp(x):
    x = _coerce(x)
    if x.is_zero():
        return ONE
    if x.den:
        f = Frac.atom(_exp_atom(x))
        return f
    out = ONE
    atoms = SPACE.atoms
    for m, c in x.num.t.items():
        # k * log(y) with integer k  ->  y**k
        if len(m) == 1 and m[0][1] == 1 and atoms[m[0][0]].kind == 'fn' \
                and atoms[m[0][0]].arg[0] == 'log' and Fraction(c).denominator == 1:
            out = out * atoms[m[0][0]].arg[1][0] ** int(c)
            continue
        if len(m) == 1 and m[0][1] == 1 and atoms[m[0][0]].kind == 'fn' \
                and atoms[m[0][0]].arg[0] == 'log' and Fraction(c).denominator == 2 \
                and known_sign(atoms[m[0][0]].arg[1][0]) in ('+', '0+'):
            out = out * atoms[m[0][0]].arg[1][0].sqrt() ** int(2 * c)
            continue
        # exp(i*pi*k)
        names = {atoms[a].name: e for a, e in m}
        if set(names) == {'i', PI_ATOM_NAME} and names[PI_ATOM_NAME] == 1 \
                and Fraction(2 * c).denominator == 1:
            out = out * (ONE, I, -ONE, -I)[int(2 * c) % 4]
            continue
        # canonical sign and integer multiples: exp(c m) = exp(|c0| m)^k
        fc = Fraction(c)
        k = fc.numerator
        base = Fraction(1, fc.denominator)
        a = Frac.atom(_exp_atom(Frac(Poly({m: _norm_coeff(base)}))))
        # modulus-one atoms: inverse is the partner atom
        out = out * (a ** k if k > 0 else (a ** (-k)).inverse())
    return out


def _exp_atom(x):
    """exp of canonical argument; conj handled, exp(conj) of imaginary = 1/exp."""
    key = ('fn', 'exp', (x.key(),))
    a = SPACE.by_key.get(key)
    if a is not None:
        return a
    xc = x.conjugate()
    if (x + xc).is_zero():
        # purely imaginary: |exp| = 1, conj is the inverse
        a = SPACE._new(f'exp({str(x)[:60]})', 'fn')
        b = SPACE._new(f'exp(-{str(x)[:60]})', 'fn')
        SPACE.atoms[a].arg = ('exp', (x,))
        SPACE.atoms[b].arg = ('exp', (xc,))
        SPACE.atoms[a].conj = b
        SPACE.atoms[b].conj = a
        SPACE.by_key[key] = a
        SPACE.by_key[('fn', 'exp', (xc.key(),))] = b
        SPACE.atoms[a].nonzero = SPACE.atoms[b].nonzero = True
        SPACE.unit[a] = b
        SPACE.unit[b] = a
        return a
    a = SPACE.fn('exp', (x,))
    at = SPACE.atoms[a]
    at.nonzero = True
    if at.conj == a:
        at.sign = '+'
    else:
        SPACE.atoms[at.conj].nonzero = True
    return a


# ---------------------------------------------------------------- signs

def known_sign(x):
    """'+', '0+', '-', '0-' or None, by syntactic positivity."""
    x = _coerce(x)
    if x.num.zero:
        return '0+'
    s = _poly_sign(x.num)
    if s is None:
        return None
    paired = set()
    for p, e in x.den.items():
        if p in paired or e % 2 == 0 and Frac(p).is_real():
            continue
        t = _poly_sign(p)
        if t is None:
            q, c = _monic(p.conj())
            if q != p and x.den.get(q) == e:      # p conj(p) > 0
                paired.add(q)
                t = '+' if c > 0 else '-'
        if t is None:
            return None
        t = t[-1]
        if t == '-' and e % 2:
            s = s.replace('+', '*').replace('-', '+').replace('*', '-')
    return s


def _mono_sign(m):
    atoms = SPACE.atoms
    d = dict(m)
    strict = True
    for a in list(d):
        e = d.get(a, 0)
        if not e:
            continue
        at = atoms[a]
        if at.conj != a:
            b = at.conj
            if d.get(b, 0) != e:
                return None
            d[a] = d[b] = 0
            if not (at.nonzero or atoms[b].nonzero):
                strict = False
        elif at.sign == '+':
            continue
        elif at.sign == '0+':
            strict = False
        elif e % 2 == 0 and at.kind != 'unit':
            if not at.nonzero:
                strict = False
        else:
            return None
    return '+' if strict else '0+'


def _poly_sign(p):
    sgn = None
    strict = False
    for m, c in p.t.items():
        s = _mono_sign(m)
        if s is None:
            return _gram_sign(p)
        pos = c > 0
        if sgn is None:
            sgn = pos
        elif sgn != pos:
            return _gram_sign(p)
        if s == '+':
            strict = True
    return ('' if strict else '0') + ('+' if sgn else '-')


def _root(m):
    """r with r conj(r) == m, for a monomial m, or None."""
    atoms = SPACE.atoms
    d = dict(m)
    out = []
    for a, e in m:
        b = atoms[a].conj
        if b == a:
            if e % 2:
                return None
            out.append((a, e // 2))
        elif d.get(b) != e:
            return None
        elif a < b:
            out.append((a, e))
    return tuple(out)


def _gram_sign(p):
    k = (p.key(), len(SPACE.unit))
    if k not in SPACE.gram:
        SPACE.gram[k] = _gram(p)
    return SPACE.gram[k]


def _gram(p):
    """Sign of a sum of c_ij r_i conj(r_j) with monomials r_i: definiteness of the
    matrix c by exact elimination."""
    if not 2 < len(p.t) <= 1500:
        return None
    mono = p.content_mono()
    outer = _mono_sign(mono) if mono else '+'
    if outer is None:
        outer = '+'
    elif mono:
        p = p.div_mono(mono)
    atoms = SPACE.atoms
    for m in p.t:
        for a, _ in m:
            if a == 0 or a in SPACE.reducible or a in SPACE.unit or atoms[a].kind == 'unit':
                return None
    roots, cross = {}, []
    for m, c in p.t.items():
        r = _root(m)
        if r is None:
            cross.append((m, c))
        else:
            roots[r] = c
    n = len(roots)
    if not n or n > 150 or len(cross) > n * (n - 1) or len({c > 0 for c in roots.values()}) > 1:
        return None
    pos = next(iter(roots.values())) > 0
    # a root known not to vanish comes last
    names = sorted(roots, key=lambda r: (_mono_sign(_mono_mul(r, _mono_conj(r))) == '+', r))
    pairs = {}
    for i in range(n):
        for j in range(n):
            if i != j:
                pairs.setdefault(_mono_mul(names[i], _mono_conj(names[j])), []).append((i, j))
    A = [[Fraction(0)] * n for _ in range(n)]
    for i, r in enumerate(names):
        A[i][i] = Fraction(roots[r])
    for m, c in cross:
        at = pairs.get(m, ())
        # one place, or the two places of a product of real monomials
        if not (len(at) == 1 or len(at) == 2 and at[0] == at[1][::-1]):
            return None
        for i, j in at:
            A[i][j] += Fraction(c) / len(at)
    if any(A[i][j] != A[j][i] for i in range(n) for j in range(i)):
        return None
    if not pos:
        A = [[-x for x in row] for row in A]
    for k in range(n):
        d = A[k][k]
        if d < 0:
            return None
        if d == 0:
            if any(A[k][j] for j in range(k + 1, n)):
                return None
            continue
        for i in range(k + 1, n):
            if A[i][k]:
                f = A[i][k] / d
                for j in range(k + 1, n):
                    A[i][j] -= f * A[k][j]
    r = names[-1]
    strict = outer == '+' and A[-1][-1] > 0 and _mono_sign(_mono_mul(r, _mono_conj(r))) == '+'
    return ('' if strict else '0') + ('+' if pos else '-')


def _mono_conj(m):
    atoms = SPACE.atoms
    return tuple(sorted((atoms[a].conj, e) for a, e in m))


# ---------------------------------------------------------------- evaluation

def substitute(x, mapping):
    """Evaluate with atom id -> number (complex/Fraction/Frac)."""
    num = _eval_poly(x.num, mapping)
    for p, e in x.den.items():
        num = num / _eval_poly(p, mapping) ** e
    return num


def atom_value(a, mapping):
    if a in mapping:
        return mapping[a]
    at = SPACE.atoms[a]
    if at.kind == 'unit':
        return 1j
    if at.name == PI_ATOM_NAME:
        return math.pi
    if at.conj in mapping and at.conj != a:
        return np.conj(mapping[at.conj])
    if at.kind == 'sqrt':
        v = substitute(at.arg, mapping)
        v = np.sqrt(complex(v))
    elif at.kind == 'fn' and at.arg[0] in ('log', 'exp'):
        v = substitute(at.arg[1][0], mapping)
        v = getattr(np, at.arg[0])(complex(v))
    elif at.kind == 'fn':
        vals = [complex(substitute(x, mapping)) if isinstance(x, Frac) else x for x in at.arg[1]]
        v = _pseudo(at.arg[0], vals, at.conj == a)
    elif at.arg is not None and at.arg[0] == 'root':
        cs = [complex(substitute(x, mapping)) for x in at.arg[1]]
        v = np.roots(cs)[at.arg[2]]
    elif at.conj != a and SPACE.atoms[at.conj].arg is not None and SPACE.atoms[at.conj].arg[0] == 'root':
        v = np.conj(atom_value(at.conj, mapping))
    elif '__rng__' in mapping and at.kind in ('real', 'cplx'):
        rng = mapping['__rng__']
        if at.conj == a:
            v = rng.normal()
            v = abs(v) % 1 if at.sign else v
        else:
            v = complex(rng.normal(), rng.normal())
            mapping[at.conj] = np.conj(v)
    else:
        raise Unsupported(f'no numeric value for atom {at.name}')
    mapping[a] = v
    return v


def _pseudo(name, vals, real):
    """Some value of an uninterpreted function, the same for (nearly) equal arguments."""
    import hashlib
    txt = name + '|' + '|'.join(f'{v.real:.6g},{v.imag:.6g}' if isinstance(v, complex) else str(v) for v in vals)
    txt = txt.replace('-0,', '0,')
    h = hashlib.sha256(txt.encode()).digest()
    re, im = int.from_bytes(h[:6], 'big') / 2**48 + 0.1, int.from_bytes(h[6:12], 'big') / 2**48 - 0.5
    return re if real else complex(re, im)


def looks_zero(x, n=4):
    """The value is numerically zero at random points although its normal form is
    not the zero polynomial (square roots, logarithms ... have several forms)."""
    if all(SPACE.atoms[a].kind in ('unit', 'real', 'cplx') and not SPACE.atoms[a].red_pow for a in _all_atoms(x)):
        return False
    try:
        for t in range(n):
            mp = {'__rng__': np.random.default_rng(t)}
            v = complex(_eval_poly(x.num, mp))
            scale = sum(abs(complex(_eval_poly(Poly({m: c}), mp))) for m, c in x.num.t.items())
            if not abs(v) <= 1e-9 * scale:
                return False
    except (Unsupported, ZeroDivisionError, OverflowError, ValueError):
        return False
    return True


def _all_atoms(x):
    out = set(x.num.atoms())
    for p in x.den:
        out |= p.atoms()
    return out


def _eval_poly(p, mapping):
    out = 0
    for m, c in p.t.items():
        v = float(c) if isinstance(c, Fraction) else c
        for a, e in m:
            v = v * atom_value(a, mapping) ** e
        out = out + v
    return out


# ---------------------------------------------------------------- derivations

def derive(x, table):
    """The derivation given on atoms by table (atom id -> Frac, default 0) applied to x.
    Square roots, logarithms and exponentials follow the chain rule."""
    x = _coerce(x)
    cache = {}

    def d_atom(a):
        if a in table:
            return table[a]
        if a not in cache:
            at = SPACE.atoms[a]
            out = ZERO
            if at.kind == 'sqrt':
                out = derive(at.arg, table) / (Frac.atom(a) * 2)
            elif at.kind == 'fn' and at.arg[0] == 'log':
                out = derive(at.arg[1][0], table) / at.arg[1][0]
            elif at.kind == 'fn' and at.arg[0] == 'exp':
                out = derive(at.arg[1][0], table) * Frac.atom(a)
            elif at.kind == 'fn' or at.red_pow and at.kind != 'unit':
                raise Unsupported(f'derivative of {at.name}')
            cache[a] = out
        return cache[a]

    def d_poly(p):
        """Derivative of a polynomial."""
        parts = {}
        for m, c in p.t.items():
            for k, (a, e) in enumerate(m):
                if d_atom(a).is_zero():
                    continue
                rest = m[:k] + (((a, e - 1),) if e > 1 else ()) + m[k + 1:]
                t = parts.setdefault(a, {})
                v = t.get(rest, 0) + c * e
                if v:
                    t[rest] = v
                else:
                    t.pop(rest)
        out = ZERO
        for a, t in parts.items():
            out = out + Frac(Poly(t)) * d_atom(a)
        return out
    out = d_poly(x.num) * Frac(PONE, x.den)
    for p, e in x.den.items():
        dp = d_poly(p)
        if not dp.is_zero():
            out = out - x * dp * e / Frac(p)
    return out


def only_atom(x):
    """The atom id if x is a single atom."""
    (m, c), = x.num.t.items()
    assert c == 1 and len(m) == 1 and m[0][1] == 1 and not x.den
    return m[0][0]


# ---------------------------------------------------------------- replacement of atoms

def rebuild(x, mapping):
    """Exact replacement of atoms (id -> Frac), also inside functions."""
    memo = {}

    def atom(a):
        if a in mapping:
            return mapping[a]
        if a in memo:
            return memo[a]
        at = SPACE.atoms[a]
        if at.kind == 'sqrt':
            v = rebuild(at.arg, mapping).sqrt()
        elif at.kind == 'fn':
            args = [rebuild(y, mapping) if isinstance(y, Frac) else y for y in at.arg[1]]
            if at.arg[0] == 'log':
                v = args[0].log()
            elif at.arg[0] == 'exp':
                v = exp(args[0])
            elif all(not isinstance(y, Frac) or (y - z).is_zero() for y, z in zip(args, at.arg[1])):
                v = Frac.atom(a)
            else:
                raise Unsupported(f'replacement inside {at.arg[0]}')
        elif at.kind in ('unit', 'real', 'cplx') and at.arg is None:
            v = Frac.atom(a)
        else:
            raise Unsupported(f'replacement inside {at.name}')
        memo[a] = v
        return v

    def poly(p):
        out = ZERO
        for m, c in p.t.items():
            v = Frac.const(c)
            for a, e in m:
                v = v * atom(a) ** e
            out = out + v
        return out
    out = poly(x.num)
    for p, e in x.den.items():
        out = out / poly(p) ** e
    return out


def solutions(d):
    """Replacements of one real atom each which together cover d = 0, or None."""
    num = d.num
    atoms, out = set(num.atoms()), []
    for a in sorted(atoms):
        at = SPACE.atoms[a]
        if at.kind == 'real' and at.conj == a and at.arg is None:
            with_a = [(m, c) for m, c in num.t.items() if any(b == a for b, _ in m)]
            if len(with_a) == 1 and with_a[0][0] == ((a, 1),):
                rest = Frac(Poly({m: c for m, c in num.t.items() if m != ((a, 1),)}), {})
                return [{a: -rest / Frac.const(with_a[0][1])}]
    if len(num.t) == 1:
        (m, _), = num.t.items()
        for a, _ in m:
            at = SPACE.atoms[a]
            if at.sign == '+' or at.nonzero:
                continue
            if not (at.kind in ('real', 'cplx') and at.arg is None):
                return None
            out.append({a: ZERO, at.conj: ZERO})
        return out
    return None
