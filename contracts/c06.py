"""Polynomial algebra, derivatives and substitution."""
import itertools

import numpy as np
import sympy
import jax.numpy as jnp

from cyjax import Poly, HomPoly
from cyjax.polynomial import DworkPoly, FermatPoly
from cjv.core import Case
from cjv.extract import Sym, activate
from cjv import alg
from .c05 import evaluate, environment, sym_args


class Dual:
    """Value and derivative, for the specification of diff."""

    def __init__(self, v, d=0):
        self.v, self.d = v, d

    def _c(self, o):
        return o if isinstance(o, Dual) else Dual(o)

    def __add__(self, o):
        o = self._c(o)
        return Dual(self.v + o.v, self.d + o.d)
    __radd__ = __add__

    def __neg__(self):
        return Dual(-self.v, -self.d)

    def __sub__(self, o):
        return self + (-self._c(o))

    def __rsub__(self, o):
        return self._c(o) - self

    def __mul__(self, o):
        o = self._c(o)
        return Dual(self.v * o.v, self.v * o.d + self.d * o.v)
    __rmul__ = __mul__

    def __truediv__(self, o):
        return self * (1 / o)

    def __pow__(self, n):
        return Dual(self.v ** n, n * self.v ** (n - 1) * self.d if n else 0 * self.d)


# label -> (expression, arguments, layout, parameters)
OPS = {
    'zs': ('z0**2 + 3*z1', {}, [('z', [0, 1])], []),
    'zt': ('2*z1*z2 - z0 + 1', {}, [('z', [0, 1, 2])], []),
    'zgap': ('z3**2 - 2*z1', {}, [('z', [1, 3])], []),
    'zlow': ('z0 + 5*z2*z4', {}, [('z', [0, 2, 4])], []),
    'x': ('x**2 - 4', {}, [('x', None)], []),
    'xz': ('x*z0 + 2*x', {}, [('x', None), ('z', [0])], []),
    'pa': ('a*z0**2 - 2*z1', dict(variable_names=['z']), [('z', [0, 1])], ['a']),
    'pba': ('b*z0 + a*z2**2 - a*b', dict(variable_names=['z'], parameters=['b', 'a']), [('z', [0, 2])], ['b', 'a']),
    'pc': ('c*x**2 + a', dict(variable_names=['x']), [('x', None)], ['a', 'c']),
    'cx': ('2*I*z0 - (1 + I)*z1**2', {}, [('z', [0, 1])], []),
    'y': ('y0*y2 - 3', {}, [('y', [0, 2])], []),
}
PAIRS = [p for p in itertools.product(OPS, OPS)]


def expected(l, r):
    """Variables, indices, parameters of the combination."""
    layout = [(n, None if i is None else list(i)) for n, i in l[2]]
    names = [n for n, _ in layout]
    for n, i in r[2]:
        if n in names:
            k = names.index(n)
            if i is not None:
                layout[k] = (n, sorted(set(layout[k][1]) | set(i)))
        else:
            layout.append((n, i))
            names.append(n)
    pars = list(l[3]) + [p for p in r[3] if p not in l[3]]
    return layout, pars


def check_poly(C, label, make, layout, pars, value, inp):
    """Build with the real code, check metadata and the value for every input."""
    activate()
    try:
        out = make()
    except Exception as e:
        C.fail('Poly algebra', label, f'raised {type(e).__name__}: {e}', inp)
        C.record('Poly algebra', label, None, 'none', f'raised {e}')
        return
    C.obligation_eval('Poly algebra', f'{label}: variables', list(out.variable_names) == [n for n, _ in layout],
                      f'{out.variable_names}', inp)
    C.obligation_eval('Poly algebra', f'{label}: indices',
                      [None if i is None else list(i) for i in out.variable_indices] == [i for _, i in layout],
                      f'{out.variable_indices}', inp)
    C.obligation_eval('Poly algebra', f'{label}: parameters', [str(p) for p in out.parameters] == pars, f'{out.parameters}', inp)
    vs, par = sym_args(layout, pars)

    def post(o, a, P):
        env = environment(layout, pars, a[:len(layout)], a[-1] if pars else ())
        P.eq('value', o, value(env))
    C.run(Case('Poly algebra', f'{label}: value', lambda *a: jnp.asarray(out(*a)), vs + ((par,) if pars else ()), post, scope=label))


def run(C):
    built = {}
    activate()
    for k, (e, kw, layout, pars) in OPS.items():
        built[k] = Poly.from_sympy(e, **kw)
    ops = {'+': lambda p, q: p + q, '-': lambda p, q: p - q, '*': lambda p, q: p * q}
    for n, (l, r) in enumerate(PAIRS):
        for sym, op in ops.items():
            layout, pars = expected(OPS[l], OPS[r])
            check_poly(C, f'({OPS[l][0]}) {sym} ({OPS[r][0]})', lambda: op(built[l], built[r]), layout, pars,
                       lambda env: op(evaluate(OPS[l][0], env), evaluate(OPS[r][0], env)), {'left': OPS[l][0], 'right': OPS[r][0], 'op': sym})
    scalars = [2, -3, 0.5, 1j, 2 - 3j, np.float64(0.25), np.array(7), np.array(1.5 + 2j), jnp.asarray(4.0), jnp.asarray(1 + 2j), 0, 1]
    for l in ('zs', 'pa', 'pba', 'x', 'cx'):
        for s in scalars:
            for sym, op in ops.items():
                num = np.asarray(s).item()
                check_poly(C, f'({OPS[l][0]}) {sym} {type(s).__name__} {num}', lambda: op(built[l], s), OPS[l][2], OPS[l][3],
                           lambda env: op(evaluate(OPS[l][0], env), alg.Frac.const(num) if any(isinstance(v, alg.Frac) for v in env.values()) else num),
                           {'left': OPS[l][0], 'right': str(s), 'op': sym})
    # symbols: existing parameter, existing component, new component, new parameter
    for l, s, add in [('pa', 'a', None), ('pa', 'b', 'par'), ('pba', 'z2', None), ('pba', 'z1', 'z'), ('zgap', 'z2', 'z'),
                      ('zgap', 'z0', 'z'), ('zgap', 'z7', 'z'), ('x', 'x', None), ('zs', 'a', 'par'), ('zs', 'z1', None)]:
        layout = [(n, None if i is None else list(i)) for n, i in OPS[l][2]]
        pars = list(OPS[l][3])
        if add == 'par':
            pars.append(s)
        elif add:
            k = [n for n, _ in layout].index(add)
            layout[k] = (add, sorted(set(layout[k][1]) | {int(s[1:])}))
        for sym, op in ops.items():
            check_poly(C, f'({OPS[l][0]}) {sym} symbol {s}', lambda: op(built[l], sympy.Symbol(s)), layout, pars,
                       lambda env: op(evaluate(OPS[l][0], env), env[s]), {'left': OPS[l][0], 'right': s, 'op': sym})
    # longer expressions
    check_poly(C, '(p*q - r)*p', lambda: (built['pa'] * built['zgap'] - built['pba']) * built['pa'],
               [('z', [0, 1, 2, 3])], ['a', 'b'],
               lambda env: (evaluate(OPS['pa'][0], env) * evaluate(OPS['zgap'][0], env) - evaluate(OPS['pba'][0], env)) * evaluate(OPS['pa'][0], env),
               {'expression': '(p*q - r)*p'})
    # many parameters, some in common
    many = [('e*z0 + d*z1 - c*z0*z1 + b*a', ['d', 'e', 'a', 'b', 'c']), ('c*z0**2 - f*z1 + a*d', ['f', 'c', 'd', 'a']), ('b*z0 + g', ['g', 'b'])]
    activate()
    polys = [Poly.from_sympy(e, ['z'], q, variable_indices=[[0, 1]]) for e, q in many]
    for i, j in itertools.permutations(range(3), 2):
        for sym, op in ops.items():
            (e, q), (f, r) = many[i], many[j]
            check_poly(C, f'({e}) {sym} ({f})', lambda: op(polys[i], polys[j]), [('z', [0, 1])], q + [p for p in r if p not in q],
                       lambda env: op(evaluate(e, env), evaluate(f, env)), {'left': e, 'right': f, 'op': sym})
    # derivatives, also of polynomials which do not contain the component
    absent = {'no z1': ('z0**2 + 3*z2', dict(variable_names=['z'], variable_dim=[3]), [('z', [0, 1, 2])], []),
              'only parameters': ('a + 2', dict(variable_names=['z'], parameters=['a'], variable_dim=[2]), [('z', [0, 1])], ['a'])}
    activate()
    for k, (e, kw, layout, pars) in absent.items():
        built[k] = Poly.from_sympy(e, **kw)
    for l, (e, kw, layout, pars) in {**OPS, **absent}.items():
        comps = [n if i is None else f'{n}{j}' for n, i in layout for j in (i or [None])]
        for c in comps:
            for form in (str, sympy.Symbol):
                check_poly(C, f'd({e})/d{c} by {form.__name__}', lambda: built[l].diff(form(c)), layout, pars,
                           lambda env: derivative(e, env, c), {'expression': e, 'variable': c})
    activate()
    for label, h, e in [('hom', HomPoly.from_sympy('z0**3 + a*z0*z1*z2 - z2**3', ['z']), 'z0**3 + a*z0*z1*z2 - z2**3'),
                        ('Dwork', DworkPoly(3), 'z0**3 + z1**3 + z2**3 - 5*psi*z0*z1*z2'),
                        ('Fermat', FermatPoly(3), 'z0**3 + z1**3 + z2**3')]:
        pars = [str(p) for p in h.parameters]
        for c in ('z0', 'z2'):
            check_poly(C, f'{label} d/d{c}', lambda: h.diff(c), [('z', [0, 1, 2])], pars,
                       lambda env: derivative(e, env, c), {'expression': e, 'variable': c})
        for sym, op in ops.items():
            check_poly(C, f'{label} {sym} polynomial', lambda: op(h, built['pba']), [('z', [0, 1, 2])],
                       pars + [p for p in ('b', 'a') if p not in pars],
                       lambda env: op(evaluate(e, env), evaluate(OPS['pba'][0], env)), {'expression': e, 'op': sym})
    substitution(C)


def derivative(e, env, c):
    some = next(iter(env.values()))
    zero = alg.ZERO if isinstance(some, alg.Frac) else 0
    one = alg.ONE if isinstance(some, alg.Frac) else 1
    v = evaluate(e, {k: Dual(x, one if k == c else zero) for k, x in env.items()})
    return v.d if isinstance(v, Dual) else zero


SUBS = [
    # label, expression, arguments, layout, parameters, values (expressions), parameter values
    ('swap', 'z0**2 + 3*z1', {}, [('z', [0, 1])], [], [['z1', 'z0']], None),
    ('cycle', 'z0**2*z1 - 2*z2 + z1', {}, [('z', [0, 1, 2])], [], [['z1', 'z2', 'z0']], None),
    ('sums', 'z0**2*z1 - z1**2', {}, [('z', [0, 1])], [], [['z0 + z1', 'z0 - z1']], None),
    ('new names', 'z0**2*z1 - z1**2', {}, [('z', [0, 1])], [], [['u', '2*v']], None),
    ('numbers too', 'z0**2*z1 - z1**2', {}, [('z', [0, 1])], [], [['z1', 3]], None),
    ('parameters', 'a*z0**2 - b*z1', dict(variable_names=['z']), [('z', [0, 1])], ['a', 'b'], [['z1', 'z0']], ['b', 'a']),
    ('parameter and variable exchanged', 'a*z0**2 - b*z1', dict(variable_names=['z']), [('z', [0, 1])], ['a', 'b'], [['a', 'b']], ['z0', 'z1']),
    ('numeric parameters', 'a*z0**2 - b*z1', dict(variable_names=['z']), [('z', [0, 1])], ['a', 'b'], [['z1', 'z0']], [2, 5]),
    ('symbolic parameters', 'a*z0**2 - b*z1', dict(variable_names=['z']), [('z', [0, 1])], ['a', 'b'], [[2, 7]], ['b', 'a']),
    ('scalar', 'x**2*z0 - x', {}, [('x', None), ('z', [0])], [], ['z0', ['x']], None),
    ('two vectors exchanged', 'y0*z1**2 - y1*z0', {}, [('y', [0, 1]), ('z', [0, 1])], [], [['z0', 'z1'], ['y0', 'y1']], None),
    ('gaps', 'z1**2 + 2*z4*z2', {}, [('z', [1, 2, 4])], [], [['z4', 'z1', 'z2']], None),
]


def substitution(C):
    for label, e, kw, layout, pars, vals, pv in SUBS:
        activate()
        poly = Poly.from_sympy(e, **kw)

        def symb(v):
            return sympy.parse_expr(v) if isinstance(v, str) else v
        args = [np.array([symb(q) for q in v], dtype=object) if isinstance(v, list) else symb(v) for v in vals]
        kws = {}
        if pv is not None:
            kws['params'] = np.array([symb(q) for q in pv], dtype=object) if any(isinstance(q, str) for q in pv) else np.array(pv)
        flat = [q for v in vals for q in (v if isinstance(v, list) else [v])] + list(pv or [])
        names = {str(x) for q in flat for x in sympy.sympify(q).free_symbols}
        for mode in ('positional', 'keyword'):
            try:
                if mode == 'positional':
                    out = poly(*args, *kws.values())
                else:
                    out = poly(**dict(zip(poly.variable_names, args)), **kws)
            except Exception as ex:
                C.fail('Poly.__call__ (symbolic)', f'{label} {mode}', f'raised {type(ex).__name__}: {ex}', {'expression': e, 'values': str(vals)})
                C.record('Poly.__call__ (symbolic)', f'{label} {mode}', None, 'none', str(ex))
                continue

            def both(env):
                got = evaluate(sympy.sympify(out), env)
                inner = [[evaluate(q, env) if isinstance(q, str) else q for q in v] if isinstance(v, list) else evaluate(v, env) for v in vals]
                ip = [evaluate(q, env) if isinstance(q, str) else q for q in (pv or [])]
                return got, evaluate(e, environment(layout, pars, inner, ip))
            C.identity('Poly.__call__ (symbolic)', f'{label}: {mode}', both,
                       sorted(names | {str(x) for x in sympy.sympify(out).free_symbols}))
