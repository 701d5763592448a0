"""Numeric evaluation of polynomials."""
import numpy as np
import sympy
import jax
import jax.numpy as jnp

from cyjax import Poly, HomPoly
from cjv.core import Case
from cjv.extract import Sym, activate
from cjv import alg

# label, expression, from_sympy arguments, expected layout [(variable, indices)], parameters
S = sympy
z0, z1, z2, x, a, b = S.symbols('z0 z1 z2 x a b')
POLYS = [
    ('vector', 'z0**2 + 3*z1*z2 - z2**3', {}, [('z', [0, 1, 2])], []),
    ('underscore', 'z_0**2 + 3*z_1*z_2', {}, [('z', [0, 1, 2])], []),
    ('scalar', 'x**3 - 2*x + 7', {}, [('x', None)], []),
    ('scalar and vector', 'x**2*z0 + 5*z1*x - 1', {}, [('x', None), ('z', [0, 1])], []),
    ('order of variables given', 'x**2*z0 + 5*z1*x - 1', dict(variable_names=['z', 'x']), [('z', [0, 1]), ('x', None)], []),
    ('two vectors', 'y0*z1**2 - 4*y1*z0', {}, [('y', [0, 1]), ('z', [0, 1])], []),
    ('gaps', 'z0*z5 + 2*z2**2', {}, [('z', [0, 2, 5])], []),
    ('more than ten indices', 'z1*z10 + 2*z2**2 - 3*z11', {}, [('z', [1, 2, 10, 11])], []),
    ('dimension given', 'z0**2 + z2', dict(variable_names=['z'], variable_dim=[4]), [('z', [0, 1, 2, 3])], []),
    ('dimensions given', 'z0**2*y1 + 3*z2*y0', dict(variable_names=['z', 'y'], variable_dim=[3, 2]), [('z', [0, 1, 2]), ('y', [0, 1])], []),
    ('product of scalars', 'x*y', {}, [('x', None), ('y', None)], []),
    ('power of a scalar', 'x**2', {}, [('x', None)], []),
    ('one scalar', 'x', {}, [('x', None)], []),
    ('scalar with parameter', 'a*x*y**2', dict(variable_names=['x', 'y']), [('x', None), ('y', None)], ['a']),
    ('product of components', 'z0*z1*z2', {}, [('z', [0, 1, 2])], []),
    ('indices given', 'z1**2 + 3*z4', dict(variable_names=['z'], variable_indices=[[1, 2, 4]]), [('z', [1, 2, 4])], []),
    ('indices in own order', 'z1**2 + 3*z4', dict(variable_names=['z'], variable_indices=[[4, 1]]), [('z', [4, 1])], []),
    ('parameters found', 'a*z0**2 + b*z1 - 2*a*b', dict(variable_names=['z']), [('z', [0, 1])], ['a', 'b']),
    ('parameters given', 'a*z0**2 + b*z1', dict(parameters=['b', 'a']), [('z', [0, 1])], ['b', 'a']),
    ('variables and parameters given', 'a*z0**2 + b*z1', dict(variable_names=['z'], parameters=['c', 'b', 'a']),
     [('z', [0, 1])], ['c', 'b', 'a']),
    ('parameter powers', 'a**2*z0 + (a + 1)*z1**2*b**3', dict(variable_names=['z']), [('z', [0, 1])], ['a', 'b']),
    ('indexed parameters', 't1*z0 + t0*z1**2', dict(variable_names=['z']), [('z', [0, 1])], ['t0', 't1']),
    ('product form', '(z0 + 2*z1)**2*(z1 - x)', dict(variable_names=['x', 'z']), [('x', None), ('z', [0, 1])], []),
    ('rational', 'z0**2/3 - 5*z1/7', {}, [('z', [0, 1])], []),
    ('floating', '0.5*z0**2 - 1.25*z1', {}, [('z', [0, 1])], []),
    ('imaginary', 'I*z0**2 + 3*z1', {}, [('z', [0, 1])], []),
    ('complex', '(2 + 3*I)*z0**2*z1 - 0.5*I*z1 + I', {}, [('z', [0, 1])], []),
    ('complex with parameter', '2*I*a*z0**2 + (1 - I)*z1', dict(variable_names=['z']), [('z', [0, 1])], ['a']),
    ('constant', 'z0 - z0 + 4', dict(variable_names=['z'], variable_dim=[2]), [('z', [0, 1])], []),
    ('single component', 'z3**4', {}, [('z', [3])], []),
    ('large power', 'z0**9 - z1**7*z0**2', {}, [('z', [0, 1])], []),
    ('symbol arrays', z0**2 + 3*z2*x, dict(variable_names=[np.array([z2, z0]), np.array(x)]), [('z', [2, 0]), ('x', None)], []),
    ('sympy polynomial', S.Poly(z0**2*a + z1*b, z0, z1), {}, [('z', [0, 1])], ['a', 'b']),
    ('sympy expression', a*z0**2 + z1*b, dict(variable_names=['z']), [('z', [0, 1])], ['a', 'b']),
]


def evaluate(expr, env):
    """Value of the expression by Python arithmetic (the specification)."""
    text = str(expr.expr) if isinstance(expr, sympy.Poly) else str(expr)
    code = compile(text, 'spec', 'eval')
    env = dict(env)
    env.setdefault('I', 1j)
    import ast

    def ev(t):
        if isinstance(t, ast.Expression):
            return ev(t.body)
        if isinstance(t, ast.BinOp):
            l, r = ev(t.left), ev(t.right)
            if isinstance(t.op, ast.Add):
                return l + r
            if isinstance(t.op, ast.Sub):
                return l - r
            if isinstance(t.op, ast.Mult):
                return l * r
            if isinstance(t.op, ast.Div):
                if isinstance(r, int):
                    from fractions import Fraction
                    return l * (alg.Frac.const(Fraction(1, r)) if isinstance(l, alg.Frac) else 1 / r)
                return l / r
            if isinstance(t.op, ast.Pow):
                return l ** r
        if isinstance(t, ast.UnaryOp):
            v = ev(t.operand)
            return -v if isinstance(t.op, ast.USub) else v
        if isinstance(t, ast.Constant):
            return t.value
        if isinstance(t, ast.Name):
            n = t.id
            if n in env:
                return env[n]
            return env[n.replace('_', '')]
        raise ValueError(ast.dump(t))
    return ev(ast.parse(text, mode='eval'))


def environment(layout, params, vals, par):
    env = {}
    for (name, idx), v in zip(layout, vals):
        if idx is None:
            env[name] = v[()] if isinstance(v, np.ndarray) and v.dtype == object else v
        else:
            for k, i in enumerate(idx):
                env[f'{name}{i}'] = v[k]
    for k, p in enumerate(params):
        env[p] = par[k]
    return env


def sym_args(layout, params, batch=()):
    vs = tuple(Sym(n, (*batch, *(() if idx is None else (len(idx),)))) for n, idx in layout)
    return vs, (Sym('par', (*batch, len(params))) if params else None)


def run(C):
    F = 'Poly.__call__'
    for label, expr, kw, layout, params in POLYS:
        activate()
        try:
            poly = Poly.from_sympy(expr, **kw)
        except Exception as e:
            C.fail('Poly.from_sympy', label, f'raised {type(e).__name__}: {e}', {'expression': str(expr), 'arguments': str(kw)})
            continue
        C.obligation_eval('Poly.from_sympy', f'{label}: variables', list(poly.variable_names) == [n for n, _ in layout],
                          f'{poly.variable_names}', {'expression': str(expr), 'arguments': str(kw)})
        C.obligation_eval('Poly.from_sympy', f'{label}: indices',
                          [None if i is None else list(i) for i in poly.variable_indices] == [i for _, i in layout],
                          f'{poly.variable_indices}', {'expression': str(expr), 'arguments': str(kw)})
        C.obligation_eval('Poly.from_sympy', f'{label}: parameters', [str(p) for p in poly.parameters] == params,
                          f'{poly.parameters}', {'expression': str(expr), 'arguments': str(kw)})
        vs, par = sym_args(layout, params)
        args = vs + ((par,) if params else ())

        def value(a):
            vals = a[:len(layout)]
            return evaluate(expr, environment(layout, params, vals, a[len(layout)] if params else ()))

        def post(out, a, P):
            P.eq('value', out, value(a))
        C.run(Case(F, f'{label}: positional', lambda *a: poly(*a), args, post, scope=str(expr)))
        names = [n for n, _ in layout]

        def by_kw(*a):
            k = dict(zip(names, a))
            if params:
                k['params'] = a[-1]
            return poly(**dict(reversed(list(k.items()))))
        C.run(Case(F, f'{label}: keywords', by_kw, args, post, scope=str(expr)))
        if params or len(names) > 1:
            def mixed(*a):
                k = dict(zip(names[1:], a[1:]))
                if params:
                    k['params'] = a[-1]
                return poly(a[0], **k)
            C.run(Case(F, f'{label}: mixed', mixed, args, post, scope=str(expr)))
        # compiled evaluation
        ev = poly.transform_eval()
        tail = () if params else (None,)      # the compiled function has a params argument always
        C.run(Case('Poly.transform_eval', f'{label}: single', lambda *a: ev(*a, *tail), args, post, scope=str(expr)))

        bv, bp = sym_args(layout, params, (2,))
        bargs = bv + ((bp,) if params else ())

        def post_b(out, a, P):
            P.same('batch shape', np.shape(out), (2,))
            for k in range(2):
                P.eq(f'value[{k}]', out[k], value([q[k] for q in a]))
        C.run(Case('Poly.transform_eval', f'{label}: batch', lambda *a: ev(*a, *tail), bargs, post_b, scope=str(expr)))
        if params:
            cargs = bv + (par,)

            def post_bc(out, a, P):
                P.same('batch shape', np.shape(out), (2,))
                for k in range(2):
                    P.eq(f'value[{k}]', out[k], value([q[k] for q in a[:-1]] + [a[-1]]))
            C.run(Case('Poly.transform_eval', f'{label}: batch, common parameters', lambda *a: ev(*a), cargs, post_bc, scope=str(expr)))
        unchanged(C, label, expr, poly, layout, params)
    # a constructor and evaluation under a subclass
    for label, expr, n in [('hom', 'z0**3 + 2*z1**2*z2 - a*z0*z1*z2', 3), ('hom gaps', 'z1**2 + 3*z4*z2', 3)]:
        activate()
        try:
            h = HomPoly.from_sympy(expr, ['z'])
        except Exception as e:
            C.fail('HomPoly.from_sympy', label, f'raised {type(e).__name__}: {e}', {'expression': str(expr)})
            continue
        idx = list(h.variable_indices[0])
        ps = [str(p) for p in h.parameters]
        vs, par = sym_args([('z', idx)], ps)
        C.run(Case('HomPoly.__call__', f'{label}: homogeneous', lambda *a: h(*a), vs + ((par,) if ps else ()),
                   lambda out, a, P: P.eq('value', out, evaluate(expr, environment([('z', idx)], ps, a[:1], a[1] if ps else ()))),
                   scope=expr))


def unchanged(C, label, expr, poly, layout, params):
    """Numpy inputs keep their values, and give the value, also at zero and for negative and integer numbers (bounded)."""
    activate()
    rng = np.random.default_rng([C.seed, len(label)])
    shape = lambda i: () if i is None else (len(i),)
    draw = {
        'complex': lambda s: rng.normal(size=s) + 1j * rng.normal(size=s),
        'integer': lambda s: rng.integers(1, 5, size=s),
        'negative': lambda s: -rng.uniform(0.3, 2, size=s),
        'zero': lambda s: np.zeros(s, complex),
        'partly zero': lambda s: (rng.normal(size=s) + 1j * rng.normal(size=s)) * (np.arange(int(np.prod(s))).reshape(s) % 2 == rng.integers(2)),
    }
    for kind, f in draw.items():
        vs, p = [np.array(f(shape(i))) for _, i in layout], np.array(f((len(params),)))
        keep, keepp = [v.copy() for v in vs], p.copy()
        inp = {'expression': str(expr), 'values': str(keep), 'params': str(keepp)}
        try:
            out = poly(*vs, *([p] if params else []))
        except Exception as e:
            C.bounded_eval('Poly.__call__', f'{label}: numpy {kind} input', False, f'raised {type(e).__name__}: {e}', inp)
            continue
        want = evaluate(expr, environment(layout, params, keep, keepp))
        same = all(np.array_equal(v, k) for v, k in zip(vs, keep)) and np.array_equal(p, keepp)
        C.bounded_eval('Poly.__call__', f'{label}: numpy {kind} input unchanged', same, f'inputs became {vs}, {p}', inp)
        ok = np.allclose(np.asarray(out, complex), np.asarray(want, complex), rtol=1e-9, atol=1e-9)
        C.bounded_eval('Poly.__call__', f'{label}: numpy {kind} value', ok, f'{out} != {want}', inp)
        if kind in ('complex', 'integer'):
            try:
                out = poly(*(v.tolist() for v in vs), *([p.tolist()] if params else []))
            except Exception:        # arrays are what is documented
                continue
            ok = np.allclose(np.asarray(out, complex), np.asarray(want, complex), rtol=1e-9, atol=1e-9)
            C.bounded_eval('Poly.__call__', f'{label}: {kind} numbers in lists', ok, f'{out} != {want}', inp)
    # batches: plain arrays of values for scalar variables
    if all(i is None for _, i in layout) and not params:
        vs = [np.array(rng.normal(size=4)) for _ in layout]
        keep = [v.copy() for v in vs]
        inp = {'expression': str(expr), 'values': str(keep)}
        try:
            out = np.asarray(poly(*vs))
            want = evaluate(expr, environment(layout, params, keep, ()))
        except Exception:
            return
        C.bounded_eval('Poly.__call__', f'{label}: array input unchanged', all(np.array_equal(v, k) for v, k in zip(vs, keep)), f'inputs became {vs}', inp)
        C.bounded_eval('Poly.__call__', f'{label}: array value', np.shape(out) == np.shape(want) and np.allclose(out, want), f'{out} != {want}', inp)
