"""Homogeneous polynomials in patches, Dwork and Fermat families, gradients."""
import itertools

import numpy as np
import sympy
import jax
import jax.numpy as jnp

from cyjax import HomPoly, VarietySingle
from cyjax.polynomial import DworkPoly, FermatPoly
from cjv.core import Case
from cjv.extract import Sym, activate
from cjv import alg
from .c05 import evaluate, environment
from .common import varieties, renamed, dwork_terms, fermat_terms, vec, QUADRIC

HOMS = [
    # label, expression, from_sympy arguments, layout, parameters
    ('cubic', 'z0**3 + 2*z1**2*z2 - a*z0*z1*z2', ['z'], [('z', [0, 1, 2])], ['a']),
    ('no parameters', 'z0**2*z1 - 4*z1**3 + z2*z0*z1', ['z'], [('z', [0, 1, 2])], []),
    ('indices from one', 'z1**2 + 3*z2**2 - z3*z1', ['z'], [('z', [1, 2, 3])], []),
    ('gaps', 'z1**2 + 3*z4**2 - 2*z7*z1', ['z'], [('z', [1, 4, 7])], []),
    ('complex coefficients', 'I*z0**2 + (2 - I)*z1*z2 - z2**2', ['z'], [('z', [0, 1, 2])], []),
    ('two parameters', 'b*z0**2 + a*z1*z2 - a*b*z2**2 + z1**2', ['z'], [('z', [0, 1, 2])], ['a', 'b']),
    ('two spaces', 'y0**2*z0 + a*y0*y1*z1 - y1**2*z2', ['y', 'z'], [('y', [0, 1]), ('z', [0, 1, 2])], ['a']),
    ('two spaces, other order', 'y0**2*z0 + a*y0*y1*z1 - y1**2*z2', ['z', 'y'], [('z', [0, 1, 2]), ('y', [0, 1])], ['a']),
    ('three spaces', 'x0*y1*z0 - 3*x1*y0*z1', ['x', 'y', 'z'], [('x', [0, 1]), ('y', [0, 1]), ('z', [0, 1])], []),
    ('four coordinates', 'z0**2 - z1*z2 + 5*z3**2 + a*z0*z3', ['z'], [('z', [0, 1, 2, 3])], ['a']),
]


def insert_ones(vals, patch):
    out = []
    for v, p in zip(vals, patch):
        v = list(v)
        out.append(v[:p] + [1] + v[p:])
    return out


def run(C):
    for label, expr, names, layout, params in HOMS:
        activate()
        poly = HomPoly.from_sympy(expr, names)
        ev = poly.transform_eval()
        dims = [len(i) for _, i in layout]
        patches = list(itertools.product(*[range(d) for d in dims]))
        par = (Sym('par', (len(params),)),) if params else ()
        tail = () if params else (None,)
        single = len(dims) == 1

        def value(a, patch):
            return evaluate(expr, environment(layout, params, insert_ones(a[:len(dims)], patch), a[len(dims)] if params else ()))

        # homogeneous coordinates
        hs = tuple(Sym(n, (len(i),)) for n, i in layout)
        C.run(Case('HomPoly.transform_eval', f'{label}: homogeneous', lambda *a: ev(*a, *tail, patch=None), hs + par,
                   lambda out, a, P: P.eq('value', out, evaluate(expr, environment(layout, params, a[:len(dims)], a[-1] if params else ()))), scope=expr))
        for patch in patches:
            vs = tuple(Sym(n, (len(i) - 1,)) for n, i in layout)

            def post(out, a, P):
                P.eq('value', out, value(a, patch))
            C.run(Case('HomPoly.__call__', f'{label}: patch {patch}', lambda *a: jnp.asarray(poly(*a, patch=patch)), vs + par, post, scope=expr))
            if single:
                C.run(Case('HomPoly.__call__', f'{label}: patch {patch[0]} as integer', lambda *a: jnp.asarray(poly(*a, patch=patch[0])), vs + par, post, scope=expr))
                C.run(Case('HomPoly.transform_eval', f'{label}: patch {patch[0]} at run time',
                           lambda k, *a: ev(*a, *tail, patch=k), (jnp.asarray(patch[0]),) + vs + par,
                           lambda out, a, P: post(out, a[1:], P), scope=expr))
                C.run(Case('HomPoly.transform_eval', f'{label}: patch {patch[0]} under jit',
                           lambda k, *a: jax.jit(lambda q, *b: ev(*b, *tail, patch=q))(k, *a), (jnp.asarray(patch[0]),) + vs + par,
                           lambda out, a, P: post(out, a[1:], P), scope=expr))
                C.run(Case('HomPoly.transform_eval', f'{label}: patch {patch[0]} bound', lambda *a: poly.transform_eval(patch=patch[0])(*a, *tail),
                           vs + par, post, scope=expr))
            C.run(Case('HomPoly.transform_eval', f'{label}: patch {patch} known', lambda *a: ev(*a, *tail, patch=patch), vs + par, post, scope=expr))
            symbolic(C, label, expr, poly, layout, params, patch, names)
            ap = poly.affine_poly(patch if not single else patch[0])
            idx = [[j for m, j in enumerate(i) if m != p] for (_, i), p in zip(layout, patch)]
            C.obligation_eval('HomPoly.affine_poly', f'{label}: patch {patch} layout',
                              list(ap.variable_names) == names and [list(i) for i in ap.variable_indices] == idx
                              and [str(p) for p in ap.parameters] == params, f'{ap.variable_names} {ap.variable_indices} {ap.parameters}',
                              {'expression': expr, 'patch': str(patch)})
            C.run(Case('HomPoly.affine_poly', f'{label}: patch {patch} value', lambda *a: jnp.asarray(ap(*a)), vs + par, post, scope=expr))
        if single:
            n = dims[0]
            ks = np.array([(2 * k + 1) % n for k in range(n)])

            def post_b(out, a, P):
                P.same('shape', np.shape(out), (n,))
                for k in range(n):
                    P.eq(f'value[{k}]', out[k], value([a[0][k]] + list(a[1:]), (int(ks[k]),)))
            C.run(Case('HomPoly.transform_eval', f'{label}: batch of patches', lambda *a: ev(*a, *tail, patch=ks),
                       (Sym(names[0], (n, n - 1)),) + par, post_b, scope=expr))
    families(C)
    gradients(C)


def symbolic(C, label, expr, poly, layout, params, patch, names):
    """Symbolic evaluation in a patch."""
    activate()
    vals = []
    for (n, i), p in zip(layout, patch):
        vals.append(np.array([sympy.Symbol(f'u{n}{k}') for k in range(len(i) - 1)]))
    sp = np.array([sympy.Symbol(f'q{k}') for k in range(len(params))])
    inp = {'expression': expr, 'patch': str(patch)}
    try:
        out = poly(*vals, *((sp,) if params else ()), patch=patch)
    except Exception as e:
        C.fail('HomPoly.__call__ (symbolic)', f'{label}: patch {patch}', f'raised {type(e).__name__}: {e}', inp)
        return

    def both(env):
        inner = [[env[str(s)] for s in v] for v in vals]
        ip = [env[str(s)] for s in sp]
        return evaluate(sympy.sympify(out), env), evaluate(expr, environment(layout, params, insert_ones(inner, patch), ip))
    syms = {str(s) for v in vals for s in v} | {str(s) for s in sp} | {str(s) for s in sympy.sympify(out).free_symbols}
    C.identity('HomPoly.__call__ (symbolic)', f'{label}: patch {patch}', both, sorted(syms), scope=expr)


def families(C):
    cases = []
    for n in range(2, 7):
        for factor, f in [(True, -5), (False, 1), (3, 3), (-2, -2), (0.5, 0.5)]:
            cases.append((f'Dwork degree {n} factor {factor}', lambda n=n, factor=factor: DworkPoly(n, factor), dwork_terms(n, f), n, 1))
        cases.append((f'Fermat degree {n}', lambda n=n: FermatPoly(n), fermat_terms(n), n, 0))
    for label, make, Q, n, npar in cases:
        activate()
        poly = make()
        F = f'{type(poly).__name__}.__call__'
        par = (Sym('par', (1,)),) if npar else ()
        pos = () if npar else (None,)
        C.run(Case(F, f'{label}: homogeneous', lambda z, *p: poly(z, *p), (Sym('z', (n,)),) + par,
                   lambda out, a, P: P.eq('value', out, Q(*a)), scope=label))
        C.run(Case(F, f'{label}: keywords', lambda z, *p: poly(z=z, params=p[0] if p else None), (Sym('z', (n,)),) + par,
                   lambda out, a, P: P.eq('value', out, Q(*a)), scope=label))
        ev = poly.transform_eval()
        C.run(Case(F, f'{label}: compiled', lambda z, *p: ev(z, *(p or (None,)), patch=None), (Sym('z', (n,)),) + par,
                   lambda out, a, P: P.eq('value', out, Q(*a)), scope=label))
        for patch in range(n):
            A = Q.affine(patch)
            C.run(Case(F, f'{label}: patch {patch}', lambda z, *p: poly(z, *(p or pos), patch=patch), (Sym('z', (n - 1,)),) + par,
                       lambda out, a, P: P.eq('value', out, A(*a)), scope=label))
            C.run(Case(F, f'{label}: compiled patch {patch}', lambda k, z, *p: ev(z, *(p or (None,)), patch=k),
                       (jnp.asarray(patch), Sym('z', (n - 1,))) + par,
                       lambda out, a, P: P.eq('value', out, A(*a[1:])), scope=label))
        # symbolic evaluation, and the sympy form used elsewhere
        zs = np.array(sympy.symarray('w', n))
        q = np.array([sympy.Symbol('q')])
        try:
            out = sympy.sympify(poly(zs, *((q,) if npar else ())))
            sp = poly.sympy_poly.as_expr()
        except Exception as e:
            C.fail(F, f'{label}: symbolic', f'raised {type(e).__name__}: {e}', {'polynomial': label})
            continue
        C.identity(F, f'{label}: symbolic', lambda env: (evaluate(out, env), Q([env[f'w_{k}'] for k in range(n)], [env['q']])),
                   sorted({f'w_{k}' for k in range(n)} | {'q'}), scope=label)
        C.identity(F, f'{label}: sympy form', lambda env: (evaluate(sp, env), Q([env[f'z{k}'] for k in range(n)], [env['psi']])),
                   sorted({f'z{k}' for k in range(n)} | {'psi'}), scope=label)
        for patch in (0, n - 1):
            out = sympy.sympify(poly(zs[1:], *((q,) if npar else ()), patch=patch))
            ap = sympy.sympify(poly.affine_poly(patch).sympy_poly.as_expr())
            A = Q.affine(patch)
            C.identity(F, f'{label}: symbolic patch {patch}', lambda env: (evaluate(out, env), A([env[f'w_{k}'] for k in range(1, n)], [env['q']])),
                       sorted({f'w_{k}' for k in range(n)} | {'q'}), scope=label)
            C.identity('HomPoly.affine_poly', f'{label}: patch {patch}',
                       lambda env: (evaluate(ap, env), A([env[f'z{k}'] for k in range(n) if k != patch], [env['psi']])),
                       sorted({f'z{k}' for k in range(n)} | {'psi'}), scope=label)


def gradients(C):
    more = {'quadric in x1, x3, x4': (lambda: VarietySingle(HomPoly.from_sympy(renamed(QUADRIC[0]), ['x'])), QUADRIC[1], 1)}
    for name, (make, Q, npar) in {**varieties(), **more}.items():
        activate()
        X = make()
        n = len(Q.terms[0][2])
        par = (Sym('par', (npar,)),) if npar else ()
        tail = () if npar else (None,)
        F = 'VarietySingle.grad_defining'
        C.run(Case(F, f'{name}: homogeneous', lambda z, *p: X.grad_defining(z, *(p or tail)), (Sym('z', (n,)),) + par,
                   lambda out, a, P: P.eq('gradient', out, Q.grad(*a)), scope=name))
        C.run(Case('VarietySingle.defining', f'{name}: homogeneous', lambda z, *p: X.defining(z, *(p or tail)), (Sym('z', (n,)),) + par,
                   lambda out, a, P: P.eq('value', out, Q(*a)), scope=name))
        for patch in range(n):
            A = Q.affine(patch)
            C.run(Case(F, f'{name}: patch {patch}', lambda z, *p: X.grad_defining(z, *(p or tail), patch), (Sym('z', (n - 1,)),) + par,
                       lambda out, a, P: P.eq('gradient', out, A.grad(*a)), scope=name))
            C.run(Case('VarietySingle.defining', f'{name}: patch {patch}', lambda z, *p: X.defining(z, *(p or tail), patch), (Sym('z', (n - 1,)),) + par,
                       lambda out, a, P: P.eq('value', out, A(*a)), scope=name))

        def post_v(out, a, P):
            P.same('shape', out.shape, (2,))
            for k in range(2):
                P.eq(f'value[{k}]', out[k], Q(a[0][k], *a[1:]))

        def post_av(out, a, P):
            P.same('shape', out.shape, (2,))
            for k, pt in enumerate((n - 1, 0)):
                P.eq(f'value[{k}]', out[k], Q.affine(pt)(a[0][k], *a[1:]))
        C.run(Case('VarietySingle.defining', f'{name}: batch, homogeneous', lambda z, *p: X.defining(z, *(p or tail)), (Sym('z', (2, n)),) + par, post_v, scope=name))
        C.run(Case('VarietySingle.defining', f'{name}: batch', lambda z, *p: X.defining(z, *(p or tail), np.array([n - 1, 0])), (Sym('z', (2, n - 1)),) + par, post_av, scope=name))

        def post_b(out, a, P):
            P.same('shape', out.shape, (2, n - 1))
            for k, pt in enumerate((n - 1, 0)):
                P.eq(f'gradient[{k}]', out[k], Q.affine(pt).grad(a[0][k], *a[1:]))
        C.run(Case(F, f'{name}: batch', lambda z, *p: X.grad_defining(z, *(p or tail), np.array([n - 1, 0])), (Sym('z', (2, n - 1)),) + par, post_b, scope=name))
        if npar:
            def post_bp(out, a, P):
                P.same('shape', out.shape, (2, n - 1))
                for k, pt in enumerate((1, 0)):
                    P.eq(f'gradient[{k}]', out[k], Q.affine(pt).grad(a[0][k], a[1][k]))
            C.run(Case(F, f'{name}: batch of parameters', lambda z, p: X.grad_defining(z, p, np.array([1, 0])),
                       (Sym('z', (2, n - 1)), Sym('par', (2, npar))), post_bp, scope=name))
