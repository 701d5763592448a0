"""Definedness: what the code divides by, or takes the logarithm of, does not vanish.

For every division, negative power and logarithm met while interpreting the
extracted program an obligation is generated: the value is non-zero wherever
the postcondition itself is defined.  It is shown from the assumptions on the
atoms (non-zero, positive), from sums of positive terms, and from the values
the postcondition divides by or takes the logarithm of.
"""
from __future__ import annotations

from fractions import Fraction

from . import alg
from .alg import Poly, _monic, _poly_sign


def _split(p):
    """Atoms in the monomial content and the monic rest of a polynomial."""
    mono = p.content_mono()
    rest = p.div_mono(mono)
    return [a for a, _ in mono if a != 0], _monic(rest)[0]


def _order(m):
    return tuple((-a, e) for a, e in m)


def divide(p, q, limit=400):
    """Exact quotient of polynomials, or None."""
    lead = max(q.t, key=_order)
    lq = dict(lead)
    rest = {m: Fraction(c) for m, c in p.t.items()}
    out = {}
    while rest:
        if len(out) > limit:
            return None
        m = max(rest, key=_order)
        d = dict(m)
        for a, e in lq.items():
            d[a] = d.get(a, 0) - e
            if d[a] < 0:
                return None
        c = rest[m] / Fraction(q.t[lead])
        f = tuple(sorted((a, e) for a, e in d.items() if e))
        out[f] = c
        for n, k in q.t.items():
            s = dict(f)
            for a, e in n:
                s[a] = s.get(a, 0) + e
            s = tuple(sorted(s.items()))
            v = rest.get(s, 0) - c * Fraction(k)
            if v:
                rest[s] = v
            else:
                rest.pop(s, None)
    return Poly(out)


def _exp_sum(p):
    """Whether p = e (sum of terms of one sign) with e a product of exponentials."""
    first, signs = None, set()
    for m, c in p.t.items():
        arg, rest = alg.ZERO, []
        for a, e in m:
            at = alg.SPACE.atoms[a]
            if at.kind == 'fn' and at.arg[0] == 'exp':
                arg = arg + at.arg[1][0] * e
            else:
                rest.append((a, e))
        first = arg if first is None else first
        if alg._mono_sign(tuple(rest)) != '+' or not (arg - first).is_real():
            return False
        signs.add(c > 0)
    return len(signs) == 1


class NonZero:
    def __init__(self, allowed):
        self.atoms = set()
        self.polys = set()
        for x in allowed:
            self._allow(x)

    def _allow(self, x):
        for p in [x.num, *x.den]:
            self._allow_poly(p)

    def _allow_poly(self, p):
        atoms, rest = _split(p)
        for a in atoms:
            self._allow_atom(a)
        if rest.const() is None:
            for q in (rest, _monic(rest.conj())[0]):
                self.polys.add(q)

    def _allow_atom(self, a):
        if a in self.atoms:
            return
        at = alg.SPACE.atoms[a]
        self.atoms.update((a, at.conj))
        if at.kind == 'sqrt':
            self._allow(at.arg)

    def atom(self, a):
        at = alg.SPACE.atoms[a]
        c = alg.SPACE.atoms[at.conj]
        if a in self.atoms or at.nonzero or c.nonzero or at.sign == '+' or a in alg.SPACE.unit:
            return True
        if at.kind == 'sqrt':
            return self(at.arg)
        return at.kind == 'fn' and at.arg[0] == 'exp'

    def poly(self, p, depth=3):
        if p.zero:
            return False
        if p.const() is not None:
            return True
        atoms, rest = _split(p)
        if not all(self.atom(a) for a in atoms):
            return False
        if rest.const() is not None or rest in self.polys:
            return True
        s = _poly_sign(rest)
        if s in ('+', '-') or _exp_sum(rest):
            return True
        if depth:
            for q in self.polys:
                f = divide(rest, q)
                if f is not None and self.poly(f, depth - 1):
                    return True
                if len(q.t) > len(rest.t) and divide(q, rest) is not None:
                    return True
        return False

    def __call__(self, x):
        return self.poly(x.num)


def unproved(ctx, allowed):
    """The values met by the code which are not shown to be in the domain."""
    out = []
    if ctx.denoms:
        nz = NonZero(allowed)
        out += [x for x in ctx.denoms.values() if not nz(x)]
    if ctx.positives:
        keys = {x.key() for x in allowed}
        for k, x in ctx.positives.items():
            if k in keys or alg.known_sign(x) in ('+', '0+'):
                continue
            from . import smt
            if smt.prove_order(ctx, alg.ZERO, x, False)[0] is not True:
                out.append(x)
    return out
