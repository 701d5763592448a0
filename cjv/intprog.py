"""Integer programs (jaxprs over scalar integers) -> SMT, for all integers."""
from __future__ import annotations

import time

import jax
import jax.numpy as jnp
import numpy as np
from jax import core as jcore

from .alg import Unsupported
from .smt import run_smt
from .extract import activate


def sexp(t):
    if isinstance(t, (bool, np.bool_)):
        return 'true' if t else 'false'
    if isinstance(t, (int, np.integer)):
        return str(int(t)) if t >= 0 else f'(- {-int(t)})'
    if isinstance(t, str):
        return t
    return '(' + ' '.join([t[0]] + [sexp(x) for x in t[1:]]) + ')'


OPS = {'add': '+', 'sub': '-', 'mul': '*', 'lt': '<', 'le': '<=', 'gt': '>', 'ge': '>=', 'eq': '=',
       'and': 'and', 'or': 'or', 'not': 'not', 'neg': '-'}


def encode(jaxpr, consts, args):
    env = {}

    def read(v):
        return int(v.val) if isinstance(v, jcore.Literal) else env[v]
    for v, c in zip(jaxpr.constvars, consts):
        env[v] = int(c)
    for v, a in zip(jaxpr.invars, args):
        env[v] = a
    for e in jaxpr.eqns:
        n = e.primitive.name
        ins = [read(v) for v in e.invars]
        isbool = e.invars and e.invars[0].aval.dtype == np.bool_
        if n in ('pjit', 'custom_jvp_call', 'closed_call'):
            j = e.params.get('jaxpr', e.params.get('call_jaxpr'))
            outs = encode(j.jaxpr, j.consts, ins)
        elif n == 'select_n':
            if isbool:
                outs = [('ite', ins[0], ins[2], ins[1])]
            else:
                raise Unsupported('select_n on integer')
        elif n in OPS and (n not in ('and', 'or', 'not') or isbool):
            outs = [(OPS[n], *ins)]
        elif n == 'ne':
            outs = [('not', ('=', *ins))]
        elif n == 'max':
            outs = [('ite', ('<', ins[0], ins[1]), ins[1], ins[0])]
        elif n == 'min':
            outs = [('ite', ('<', ins[0], ins[1]), ins[0], ins[1])]
        elif n == 'convert_element_type':
            src, dst = e.invars[0].aval.dtype, np.dtype(e.params['new_dtype'])
            if src == dst or (src.kind == 'i' and dst.kind == 'i'):
                outs = ins
            elif src == np.bool_ and dst.kind in 'iu':
                outs = [('ite', ins[0], 1, 0)]
            else:
                raise Unsupported(f'conversion {src}->{dst}')
        elif n in ('broadcast_in_dim', 'reshape', 'squeeze', 'copy', 'stop_gradient') and e.outvars[0].aval.shape == ():
            outs = ins
        else:
            raise Unsupported(f'integer program: {n}')
        for v, o in zip(e.outvars, outs):
            env[v] = o
    return [read(v) for v in jaxpr.outvars]


def prove(C, function, label, fn, nargs, post, pre):
    if C.replay is not None:
        return
    activate()
    names = [f'i{k}' for k in range(nargs)]
    rng = range(-0, 7)
    t0 = time.time()
    try:
        closed = jax.make_jaxpr(fn)(*[jax.ShapeDtypeStruct((), jnp.int64)] * nargs)
        outs = encode(closed.jaxpr, closed.consts, names)
        script = ['(set-logic QF_NIA)'] + [f'(declare-const {v} Int)' for v in names]
        script += [f'(assert {sexp(pre(*names))})', f'(assert (not {sexp(post(*names, outs))}))', '(check-sat)']
        r, solver, _ = run_smt('\n'.join(script))
    except Exception as e:
        r, solver = f'unknown ({type(e).__name__}: {e})', 'none'
    dt = time.time() - t0
    if r == 'unsat':
        C.record(function, label + ' (all integers)', True, solver, '', dt, 'all integers')
    # run-time check on small integers: finds the failing input, or stands in
    from itertools import product
    fails = []
    count = 0
    for v in product(range(7), repeat=nargs):
        if not _ev(pre(*v)):
            continue
        count += 1
        try:
            o = [int(x) for x in jax.tree_util.tree_leaves(fn(*v))]
            if not _ev(post(*v, o)):
                fails.append((v, o))
                break
        except Exception as e:
            fails.append((v, repr(e)))
            break
    if fails:
        C.fail(function, label, f'arguments {fails[0][0]} gave {fails[0][1]}', dict(args=list(fails[0][0])))
        if r != 'unsat':
            C.record(function, label, False, solver, str(fails[0]), dt)
    elif r == 'sat':
        C.record(function, label, False, solver, 'counterexample outside small integers', dt)
        C.violations.append(dict(case=f'{function}/{label}', obligation=label, detail='refuted by ' + solver, input=None))
    elif r != 'unsat':
        C.record(function, label, None, solver, str(r), dt)
        C.bounded_note(f'{function}/{label}: all arguments below 7', count)


def _ev(t):
    if not isinstance(t, tuple):
        return t
    op, *a = t
    a = [_ev(x) for x in a]
    return {'and': lambda *x: all(x), 'or': lambda *x: any(x), 'not': lambda x: not x, '=': lambda x, y: x == y,
            '<': lambda x, y: x < y, '<=': lambda x, y: x <= y, '>': lambda x, y: x > y, '>=': lambda x, y: x >= y,
            '+': lambda x, y: x + y, '-': lambda x, *y: x - y[0] if y else -x, 'ite': lambda c, x, y: x if c else y,
            '*': lambda x, y: x * y}[op](*a)
