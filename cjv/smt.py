"""SMT back end (z3, cvc5 binaries via SMT-LIB) for orders and path conditions."""
from __future__ import annotations

import os
import subprocess
import time
from fractions import Fraction

import numpy as np

from . import alg
from .alg import Frac

TIMEOUT = 20
STATS = {'calls': 0, 'time': 0.0, 'unknown': 0.0}


def run_smt(script, timeout=TIMEOUT, solvers=('z3', 'cvc5')):
    """Returns ('unsat'|'sat'|'unknown', solver, model text)."""
    if STATS['unknown'] > 60:      # seconds spent without an answer
        timeout = min(timeout, 2)
    begin = time.time()
    for s in solvers:
        t0 = time.time()
        cmd = {'z3': ['z3', f'-T:{timeout}', '-in'],
               'cvc5': ['cvc5', f'--tlimit={timeout * 1000}', '--lang=smt2', '--produce-models', '-']}[s]
        try:
            r = subprocess.run(cmd, input=script, capture_output=True, text=True, timeout=timeout + 10)
        except (subprocess.TimeoutExpired, FileNotFoundError):
            continue
        finally:
            STATS['calls'] += 1
            STATS['time'] += time.time() - t0
        out = r.stdout.strip().splitlines()
        if out and out[0] in ('sat', 'unsat'):
            return out[0], s, '\n'.join(out[1:])
    STATS['unknown'] += time.time() - begin
    return 'unknown', '', ''


def _rat(c):
    c = Fraction(c)
    n = f'{abs(c.numerator)}.0'
    s = n if c.denominator == 1 else f'(/ {n} {c.denominator}.0)'
    return f'(- {s})' if c < 0 else s


class Enc:
    """Encode real-valued Frac terms over the reals (re/im of complex atoms)."""

    def __init__(self):
        self.decl = {}
        self.side = []

    def atom(self, a):
        """(re, im) SMT terms."""
        at = alg.SPACE.atoms[a]
        if at.kind == 'unit':
            return '0.0', '1.0'
        base = min(a, at.conj)
        if at.conj == a:
            v = f'x{a}'
            if v not in self.decl:
                self.decl[v] = at.name
                if at.name == alg.PI_ATOM_NAME:
                    self.side.append(f'(and (< 3.1415926 {v}) (< {v} 3.1415927))')
                elif at.sign == '+':
                    self.side.append(f'(> {v} 0.0)')
                elif at.sign == '0+':
                    self.side.append(f'(>= {v} 0.0)')
                if at.kind == 'sqrt':
                    r, i = self.frac(at.red_to)
                    self.side.append(f'(>= {v} 0.0)')
                    self.side.append(f'(= (* {v} {v}) {r})')
            return v, '0.0'
        re, im = f'x{base}r', f'x{base}i'
        if re not in self.decl:
            self.decl[re] = at.name
            self.decl[im] = at.name
            if at.nonzero:
                self.side.append(f'(not (= (+ (* {re} {re}) (* {im} {im})) 0.0))')
            if base in alg.SPACE.unit:
                self.side.append(f'(= (+ (* {re} {re}) (* {im} {im})) 1.0)')
        return re, (im if a == base else f'(- {im})')

    def poly(self, p):
        res, ims = [], []
        for m, c in p.t.items():
            r, i = _rat(c), '0.0'
            for a, e in m:
                ar, ai = self.atom(a)
                for _ in range(e):
                    r, i = _cmul(r, i, ar, ai)
            if r != '0.0':
                res.append(r)
            if i != '0.0':
                ims.append(i)
        return _sum(res), _sum(ims)

    def frac(self, x):
        """Real part/imag part; denominators introduced as products."""
        r, i = self.poly(x.num)
        for p, e in x.den.items():
            pr, pi = self.poly(p)
            for _ in range(e):
                if pi == '0.0':
                    q = self.quot(r, pr)
                    i = self.quot(i, pr) if i != '0.0' else i
                    r = q
                else:
                    n2 = f'(+ (* {pr} {pr}) (* {pi} {pi}))'
                    r, i = _cmul(r, i, pr, f'(- {pi})')
                    r = self.quot(r, n2)
                    i = self.quot(i, n2) if i != '0.0' else i
        return r, i

    def quot(self, a, b):
        v = f'q{len(self.decl)}'
        self.decl[v] = 'quotient'
        self.side.append(f'(= (* {v} {b}) {a})')
        self.side.append(f'(not (= {b} 0.0))')
        return v

    def script(self, asserts, logic='QF_NRA'):
        s = [f'(set-logic {logic})']
        s += [f'(declare-const {v} Real)' for v in self.decl]
        s += [f'(assert {a})' for a in self.side]
        s += [f'(assert {a})' for a in asserts]
        s += ['(check-sat)']
        return '\n'.join(s)


def _sum(ts):
    if not ts:
        return '0.0'
    return ts[0] if len(ts) == 1 else '(+ ' + ' '.join(ts) + ')'


def _m(a, b):
    if a == '0.0' or b == '0.0':
        return '0.0'
    if a == '1.0':
        return b
    if b == '1.0':
        return a
    return f'(* {a} {b})'


def _cmul(r, i, ar, ai):
    p, q, s, t = _m(r, ar), _m(i, ai), _m(r, ai), _m(i, ar)
    re = p if q == '0.0' else f'(- {p} {q})'
    im = s if t == '0.0' else (t if s == '0.0' else f'(+ {s} {t})')
    return re, im


def _facts(enc, ctx):
    out = []
    for rel, d in ctx.facts:
        r, i = enc.frac(d)
        out.append({'<0': f'(< {r} 0.0)', '<=0': f'(<= {r} 0.0)', '>0': f'(> {r} 0.0)',
                    '>=0': f'(>= {r} 0.0)', '=0': f'(and (= {r} 0.0) (= {i} 0.0))',
                    '!=0': f'(not (and (= {r} 0.0) (= {i} 0.0)))'}[rel])
    for tag, arr in ctx.draws.items():
        if tag[0] == 'u':
            for x in arr.reshape(-1):
                r, _ = enc.frac(x)
                out.append(f'(< {r} 1.0)')
    return out


def infeasible(ctx):
    enc = Enc()
    f = _facts(enc, ctx)
    return run_smt(enc.script(f), 10)[0] == 'unsat'


def entails_zero(ctx, d):
    if not any(rel == '=0' for rel, _ in ctx.facts):
        return None
    enc = Enc()
    f = _facts(enc, ctx)
    r, i = enc.frac(d)
    res, s, _ = run_smt(enc.script(f + [f'(not (and (= {r} 0.0) (= {i} 0.0)))']), 15)
    return {'unsat': True, 'sat': False}.get(res)


def prove_order(ctx, a, b, strict):
    """a <= b (or <): True/False/None and back end."""
    d = b - a
    if not d.is_real():
        return False, 'normal-form'
    s = alg.known_sign(d)
    if s == '+' or (s == '0+' and not strict):
        return True, 'sign-rule'
    if d.is_zero():
        return (not strict), 'normal-form'
    # syntactic: a fact that is exactly this
    for rel, f in ctx.facts + ctx.squares:
        if rel not in ('<0', '<=0') or (strict and rel != '<0') or f.is_zero():
            continue
        if (f + d).is_zero():
            return True, 'path-fact'
        if alg.known_sign(-d / f) in ('+', '0+') and (not strict or alg.known_sign(-d / f) == '+'):
            return True, 'path-fact'
    enc = Enc()
    fs = _facts(enc, ctx)
    r, _ = enc.frac(d)
    goal = f'(<= {r} 0.0)' if strict else f'(< {r} 0.0)'
    res, sv, _ = run_smt(enc.script(fs + [goal]))
    return {'unsat': True, 'sat': False}.get(res), sv or 'none'
