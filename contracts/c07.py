"""Coefficient/power form, monomial strategies, univariate coefficients."""
import warnings

import numpy as np
import sympy
import jax.numpy as jnp

from cyjax import Poly
from cyjax.polynomial import compute_monomials, univariate_coefficients
from cjv.core import Case
from cjv.extract import Sym, activate
from cjv.interp import to_obj
from cjv import alg
from .c05 import POLYS, evaluate, environment, sym_args
from .common import vec

MORE = [
    ('missing variable', 'x**2 + 1', dict(variable_names=['x', 'z'], variable_indices=[None, [0, 1]]), [('x', None), ('z', [0, 1])], []),
    ('sum of parameters', '(a + 2*b - 3)*z0**2 - (a*b + 1)*z1', dict(variable_names=['z']), [('z', [0, 1])], ['a', 'b']),
    ('high parameter powers', 'a**3*b*z0**2 + 2*a*b**2', dict(variable_names=['z']), [('z', [0])], ['a', 'b']),
    ('higher parameter powers', 'a**7*z0 - 3*a**4*b**5*z0**2 + b**6', dict(variable_names=['z']), [('z', [0])], ['a', 'b']),
    ('complex sum', '(1 + 2*I)*a*z0 - 3*I*b', dict(variable_names=['z']), [('z', [0])], ['a', 'b']),
    ('zero', 'z0 - z0', dict(variable_names=['z'], variable_dim=[2]), [('z', [0, 1])], []),
]


def data_value(coeffs, cpar, powers, layout, env):
    """sum_c coeffs_c prod params prod powers (the documented formula)."""
    out = 0
    for t, c in enumerate(coeffs):
        v = c
        for p in cpar[t]:
            v = env[str(p)] * v
        for (name, idx), pw in zip(layout, powers):
            if pw is None:
                continue
            for k, e in enumerate(pw[t]):
                s = env[name] if idx is None else env[f'{name}{idx[k]}']
                v = s ** int(e) * v
        out = out + v
    return out


def run(C):
    for label, expr, kw, layout, params in POLYS + MORE:
        activate()
        inp = {'expression': str(expr), 'arguments': str(kw)}
        try:
            poly = Poly.from_sympy(expr, **kw)
        except Exception as e:
            C.fail('Poly.from_sympy', label, f'raised {type(e).__name__}: {e}', inp)
            continue
        try:
            coeffs, cpar, powers = poly.to_coeffs_and_powers()
        except Exception as e:
            C.fail('Poly.to_coeffs_and_powers', label, f'raised {type(e).__name__}: {e}', inp)
            continue
        names = [n if i is None else f'{n}{j}' for n, i in layout for j in (i or [None])] + params
        C.obligation_eval('Poly.to_coeffs_and_powers', f'{label}: lengths',
                          len(coeffs) == len(cpar) and len(powers) == len(layout)
                          and all(p is None or (len(p) == len(coeffs) and all(len(r) == len(i or [0]) for r in p))
                                  for p, (_, i) in zip(powers, layout)), f'{coeffs} {cpar} {powers}', inp)
        C.obligation_eval('Poly.to_coeffs_and_powers', f'{label}: numeric coefficients',
                          all(isinstance(c, (int, float, complex)) for c in coeffs), f'{coeffs}', inp)
        C.identity('Poly.to_coeffs_and_powers', f'{label}: sums to the polynomial',
                   lambda env: (data_value(coeffs, cpar, powers, layout, env), evaluate(expr, env)), names, scope=str(expr))
        # rebuilding
        try:
            back = Poly.from_coeffs_and_powers(coeffs, powers, cpar, poly.variable_names, poly.variable_indices, poly.parameters)
        except Exception as e:
            C.fail('Poly.from_coeffs_and_powers', f'{label}: rebuild', f'raised {type(e).__name__}: {e}', inp)
            continue
        C.obligation_eval('Poly.from_coeffs_and_powers', f'{label}: layout',
                          list(back.variable_names) == list(poly.variable_names) and list(back.parameters) == list(poly.parameters)
                          and [None if i is None else list(i) for i in back.variable_indices] == [i for _, i in layout], repr(back), inp)
        vs, par = sym_args(layout, params)

        def post(out, a, P):
            P.eq('value', out, evaluate(expr, environment(layout, params, a[:len(layout)], a[-1] if params else ())))
        C.run(Case('Poly.from_coeffs_and_powers', f'{label}: rebuild', lambda *a: jnp.asarray(back(*a)),
                   vs + ((par,) if params else ()), post, scope=str(expr)))
        for var in [n for n in names if n not in params]:
            univariate(C, label, expr, poly, layout, params, var)
    direct(C)
    monomials(C)


DIRECT = [
    # label, coeffs, powers, keyword arguments, layout, parameters, value
    ('default names', [2, -1], [[[1, 2], [0, 1]], [[1], [3]]], {}, [('a', [0, 1]), ('b', [0])], [],
     '2*a0*a1**2*b0 - a1*b0**3'),
    ('names and indices', [2, 5j], [[[1, 0], [0, 3]]], dict(variable_names=['z'], variable_indices=[[1, 4]]), [('z', [1, 4])], [],
     '2*z1 + 5*I*z4**3'),
    ('parameters found', [1, 2, 3], [[[2], [1], [0]]], dict(variable_names=['z'], coeffs_params=[['t', 's'], [], ['s', 's']]),
     [('z', [0])], ['s', 't'], 't*s*z0**2 + 2*z0 + 3*s**2'),
    ('parameters given', [1, 2], [[[2], [1]]], dict(variable_names=['z'], coeffs_params=[['t'], ['s']], parameters=['u', 't', 's']),
     [('z', [0])], ['u', 't', 's'], 't*z0**2 + 2*s*z0'),
    ('repeated monomials', [1, 2], [[[2, 0], [2, 0]]], dict(variable_names=['z']), [('z', [0, 1])], [], '3*z0**2'),
    ('constant', [4], [[[0, 0]]], dict(variable_names=['z']), [('z', [0, 1])], [], '4'),
    ('scalar variable', [4, 1], [[[2], [1]]], dict(variable_names=['x'], variable_indices=[None]), [('x', None)], [], '4*x**2 + x'),
]


def direct(C):
    for label, c, pw, kw, layout, params, expr in DIRECT:
        activate()
        inp = {'coeffs': str(c), 'powers': str(pw), 'arguments': str(kw)}
        try:
            poly = Poly.from_coeffs_and_powers(c, pw, **kw)
        except Exception as e:
            C.fail('Poly.from_coeffs_and_powers', label, f'raised {type(e).__name__}: {e}', inp)
            continue
        C.obligation_eval('Poly.from_coeffs_and_powers', f'{label}: layout',
                          list(poly.variable_names) == [n for n, _ in layout] and [str(p) for p in poly.parameters] == params
                          and [None if i is None else list(i) for i in poly.variable_indices] == [i for _, i in layout],
                          f'{poly.variable_names} {poly.variable_indices} {poly.parameters}', inp)
        vs, par = sym_args(layout, params)

        def post(out, a, P):
            P.eq('value', out, evaluate(expr, environment(layout, params, a[:len(layout)], a[-1] if params else ())))
        C.run(Case('Poly.from_coeffs_and_powers', f'{label}: value', lambda *a: jnp.asarray(poly(*a)),
                   vs + ((par,) if params else ()), post, scope=expr))


def univariate(C, label, expr, poly, layout, params, var):
    inp = {'expression': str(expr), 'variable': var}
    F = 'univariate_coefficients'
    for form, v in (('str', var), ('symbol', sympy.Symbol(var)), ('array', np.array(sympy.Symbol(var)))):
        activate()
        try:
            co = univariate_coefficients(poly, v)
        except Exception as e:
            C.fail(F, f'{label} in {var} ({form})', f'raised {type(e).__name__}: {e}', inp)
            continue
        rest = []
        for n, i in layout:
            if i is None:
                if n != var:
                    rest.append((n, None))
            else:
                ii = [j for j in i if f'{n}{j}' != var]
                if ii:
                    rest.append((n, ii))
        for k, c in enumerate(co):
            if isinstance(c, Poly):
                ok = list(c.variable_names) == [n for n, _ in rest] and [None if i is None else list(i) for i in c.variable_indices] == [i for _, i in rest] \
                    and [str(p) for p in c.parameters] == params and sympy.Symbol(var) not in c.sympy_poly.expr.free_symbols
                C.obligation_eval(F, f'{label} in {var} ({form}): layout of coefficient {k}', ok,
                                  f'{c.variable_names} {c.variable_indices} {c.parameters}', inp)
            else:
                C.obligation_eval(F, f'{label} in {var} ({form}): coefficient {k} is a number', np.ndim(c) == 0, f'{c!r}', inp)
        if form != 'str':
            continue
        # highest first, and the leading coefficient is not identically zero (unless all is zero)
        vs, par = sym_args(rest, params)

        def call(t, *a):
            return [jnp.asarray(c(*a) if isinstance(c, Poly) else c) for c in co]

        def post(out, a, P):
            t = a[0][()] if P.symbolic else a[0]
            rec = 0
            for c in out:
                rec = rec * t + (c[()] if P.symbolic and isinstance(c, np.ndarray) and c.dtype == object else c)
            env = environment(rest, params, a[1:1 + len(rest)], a[-1] if params else ())
            env[var] = t
            P.eq('recombined', np.asarray(rec, dtype=object) if P.symbolic else rec, evaluate(expr, env))
        C.run(Case(F, f'{label} in {var}: recombination', call, (Sym('t'),) + vs + ((par,) if params else ()), post, scope=str(expr)))


def monomials(C):
    F = 'compute_monomials'
    pws = {
        'one variable': ([2], [[[1, 2], [0, 3], [2, 0], [0, 0]]]),
        'two variables': ([2, 1], [[[1, 2], [0, 0], [3, 1]], [[0], [4], [1]]]),
        'high powers': ([3], [[[5, 0, 1], [0, 7, 0]]]),
    }
    for label, (dims, powers) in pws.items():
        m = len(powers[0])
        for opt, log in [(True, True), (False, True), (True, False), (False, False)]:
            def fn(coeffs, *vals):
                with warnings.catch_warnings():
                    warnings.simplefilter('ignore')
                    return compute_monomials(vals, coeffs, powers, opt=opt, log=log)

            def post(out, a, P):
                c, vals = a[0], a[1:]
                want = []
                for t in range(m):
                    v = c[t]
                    for x, p in zip(vals, powers):
                        for k, e in enumerate(p[t]):
                            if e:
                                v = v * x[k] ** e
                    want.append(v)
                P.eq('monomials', out, vec(want, c))
            C.run(Case(F, f'{label} opt={opt} log={log}', fn,
                       (Sym('c', (m,)), *[Sym(f'v{k}', (d,), nonzero=log) for k, d in enumerate(dims)]), post, scope=label))
            if not log:
                # zero and negative real values are fine without logarithms
                for kind, vals in (('zeros', tuple(np.arange(d) * -1.5 for d in dims)), ('negative numbers', tuple(-1. - np.arange(d) for d in dims)),
                                   ('integers', tuple(np.arange(d) - 1 for d in dims))):
                    C.run(Case(F, f'{label} opt={opt} log={log} with {kind}', fn, (Sym('c', (m,)), *vals), post, scope=label))
                    C.run(Case(F, f'{label} opt={opt} log={log} numbers with {kind}', fn, (np.arange(m) + 0.5, *vals), post, scope=label, symbolic=False, tries=1))
        # scalar (rank 0) value; variable that does not appear
    def post_s(out, a, P):
        c, x = a
        x = x[()] if P.symbolic else x
        P.eq('monomials', out, vec([c[0] * x ** 3, c[1]], c))
    for opt, log in [(True, True), (True, False), (False, False)]:
        C.run(Case(F, f'scalar opt={opt} log={log}',
                   lambda c, x: compute_monomials((x,), c, [[[3], [0]]], opt=opt, log=log), (Sym('c', (2,)), Sym('x', (), nonzero=log)), post_s))
        C.run(Case(F, f'absent variable opt={opt} log={log}',
                   lambda c, x: compute_monomials((x, None), c, [[[3], [0]], None], opt=opt, log=log), (Sym('c', (2,)), Sym('x', (), nonzero=log)), post_s))
    activate()
    zz = np.array(sympy.symbols('z0 z1'))
    for opt, log in [(True, True), (False, False)]:
        try:
            out = compute_monomials((zz,), np.array([2, 3, 5]), [[[1, 2], [0, 0], [0, 4]]], opt=opt, log=log, symbolic=True)
        except Exception as e:
            C.fail(F, f'symbolic opt={opt} log={log}', f'raised {type(e).__name__}: {e}', {'values': 'z0, z1'})
            continue
        want = ['2*z0*z1**2', '3', '5*z1**4']
        for k in range(3):
            C.identity(F, f'symbolic[{k}] opt={opt} log={log}', lambda env: (evaluate(sympy.sympify(out[k]), env), evaluate(want[k], env)), ['z0', 'z1'])
