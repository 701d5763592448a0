"""Obligations, provers, replay, evidence."""
from __future__ import annotations

import json
import os
import signal
import sys
import time
import traceback
from collections import Counter, defaultdict
from pathlib import Path

import jax
import numpy as np

from . import alg, defined
from .alg import Frac, Unsupported, Undefined
from .extract import (Sym, trace, fill, leaves_of, patched, activate, interpret, interpret_eager, ASSUMED)
from .interp import explore, is_sym, to_obj, Special, _arr

VERIF = Path(__file__).resolve().parent.parent


EXPLANATION = ('Each obligation is one component of a postcondition on one path of a function extracted from the working tree. '
               'normal-form, path-fact, sign-rule, z3, definedness: proved for every value at the stated sizes; '
               'all sizes: proved for every value and every size; '
               'evaluation: no free value occurs, decided by running the code; '
               'undischarged: not decided, no alarm, the contract was run on numbers instead; '
               'bounded_standins: run-time checks on sampled numbers, not counted as discharged.')


class SymProver:
    """Collects obligations of one path in symbolic mode."""
    symbolic = True

    def __init__(self, ctx, check, label):
        self.ctx = ctx
        self.check = check
        self.label = label
        self.results = []     # (label, ok: True/False/None, detail, backend)

    def eq(self, name, got, want):
        got, want = _as_array(got), _as_array(want)
        if got.shape != want.shape:
            self.results.append((f'{name}: shape', False, f'{got.shape} != {want.shape}', 'shape'))
            return
        got, want = to_obj(got), to_obj(want)
        if got.size == 0:
            self.results.append((f'{name}: empty', True, '', 'shape'))
        for k in np.ndindex(*got.shape):
            lab = f'{name}{list(k) if k else ""}'
            g, w = got[k], want[k]
            if isinstance(g, Special) or isinstance(w, Special):
                ok = isinstance(g, Special) and isinstance(w, Special) and repr(g) == repr(w)
                self.results.append((lab, ok, f'{g} vs {w}', 'normal-form'))
                continue
            d = g - w
            ok = d.is_zero()
            backend = 'normal-form'
            if not ok and self.ctx.facts:
                from . import smt
                r = smt.entails_zero(self.ctx, d)
                if r is True:
                    ok, backend = True, 'z3'
                if not ok:
                    r = self._on_boundary(d)
                    if r is not False:
                        ok, backend = r, 'normal-form'
            if not ok and alg.looks_zero(d):
                ok = None
            self.results.append((lab, ok, '' if ok else f'difference {str(d)[:300]}', backend))

    def _on_boundary(self, d):
        """The path facts may force values to be zero: decide there (None: not decided)."""
        eqs = {}
        low = {f.key() for rel, f in self.ctx.facts if rel in ('<=0', '=0')} | {(-f).key() for rel, f in self.ctx.facts if rel in ('>=0', '=0')}
        for rel, f in self.ctx.facts:
            if rel in ('<=0', '>=0', '=0') and f.key() in low and (-f).key() in low:
                eqs.setdefault(min(f.key(), (-f).key(), key=str), f)
        if not eqs:
            return False
        try:
            todo = [(d, list(eqs.values()))]
            while todo:
                x, fs = todo.pop()
                if x.is_zero():
                    continue
                if not fs:
                    return None if alg.looks_zero(x) else False
                maps = alg.solutions(fs[0])
                if maps is None:
                    return None
                for m in maps:
                    rest = [y for y in (alg.rebuild(f, m) for f in fs[1:]) if not y.is_zero()]
                    todo.append((alg.rebuild(x, m), rest))
            return True
        except (Unsupported, Undefined, ZeroDivisionError):
            return None

    def same(self, name, got, want):
        """Concrete equality (integers, shapes, names)."""
        ok = _same(got, want)
        self.results.append((name, ok, '' if ok else f'{got!r} != {want!r}', 'evaluation'))

    def true(self, name, cond, detail='', backend='evaluation'):
        self.results.append((name, bool(cond), '' if cond else detail, backend))

    def _order(self, name, a, b, strict):
        a, b = np.broadcast_arrays(to_obj(_as_array(a)), to_obj(_as_array(b)))
        from . import smt
        for k in np.ndindex(*a.shape):
            lab = f'{name}{list(k) if k else ""}'
            r, be = smt.prove_order(self.ctx, a[k], b[k], strict)
            self.results.append((lab, r, '' if r else f'not shown: {str(a[k])[:120]} {"<" if strict else "<="} {str(b[k])[:120]}', be))

    def le(self, name, a, b):
        self._order(name, a, b, False)

    def lt(self, name, a, b):
        self._order(name, a, b, True)

    def positive(self, name, a):
        self._order(name, 0, a, True)

    def given_nonzero(self, x):
        """Precondition: the value does not vanish."""
        for v in to_obj(_as_array(x)).reshape(-1):
            v.inverse()


class NumProver:
    """Evaluates the same postconditions on numbers from the real code."""
    symbolic = False

    def __init__(self, tol=1e-6):
        self.tol = tol
        self.failures = []
        self.count = 0
        self.outside = False          # the input does not meet the precondition

    def eq(self, name, got, want):
        self.count += 1
        got, want = np.asarray(got), np.asarray(want)
        if got.shape != want.shape:
            self.failures.append((name, f'shape {got.shape} != {want.shape}'))
            return
        if got.size == 0:
            return
        got, want = got.astype(complex), want.astype(complex)
        bad_g, bad_w = ~np.isfinite(got), ~np.isfinite(want)
        if np.any(bad_g & ~bad_w):
            self.failures.append((name, 'non-finite value'))
            return
        ok = ~bad_w
        scale = max(1.0, float(np.max(np.abs(want[ok]))) if ok.any() else 1.0)
        err = float(np.max(np.abs(got[ok] - want[ok]))) if ok.any() else 0.0
        if err > self.tol * scale:
            self.failures.append((name, f'got {_short(got)} want {_short(want)} (error {err:.3g})'))

    def same(self, name, got, want):
        self.count += 1
        ok = _same(got, want)
        if not ok:
            self.failures.append((name, f'{got!r} != {want!r}'))

    def true(self, name, cond, detail='', backend=''):
        self.count += 1
        if not bool(cond):
            self.failures.append((name, detail or 'false'))

    def le(self, name, a, b):
        self.count += 1
        a, b = np.broadcast_arrays(np.asarray(a), np.asarray(b))
        if not np.all(np.real(a) <= np.real(b) + self.tol * (1 + np.abs(b))):
            self.failures.append((name, f'{_short(a)} <= {_short(b)} is false'))

    def lt(self, name, a, b):
        self.count += 1
        a, b = np.broadcast_arrays(np.asarray(a), np.asarray(b))
        if not np.all(np.real(a) < np.real(b)):
            self.failures.append((name, f'{_short(a)} < {_short(b)} is false'))

    def positive(self, name, a):
        self.lt(name, 0, a)

    def given_nonzero(self, x):
        if np.any(np.asarray(x) == 0):
            self.outside = True


def _same(got, want):
    if isinstance(got, (np.ndarray, jax.Array)) or isinstance(want, (np.ndarray, jax.Array)):
        return bool(np.array_equal(np.asarray(got), np.asarray(want)))
    if isinstance(got, (list, tuple)) and isinstance(want, (list, tuple)):
        return len(got) == len(want) and all(_same(a, b) for a, b in zip(got, want))
    return bool(got == want)


def _short(a):
    return np.array2string(np.asarray(a), precision=6, threshold=12).replace('\n', ' ')[:300]


def _as_array(x):
    if isinstance(x, np.ndarray):
        return x
    if isinstance(x, (Frac, Special)):
        o = np.empty((), dtype=object)
        o[()] = x
        return o
    if isinstance(x, (list, tuple)):
        rows = [_as_array(r) for r in x]
        if any(is_sym(r) for r in rows):
            out = np.empty((len(rows), *rows[0].shape), dtype=object)
            for k, r in enumerate(rows):
                r = to_obj(r)
                out[k] = r if r.shape else r[()]
            return out
        return np.asarray(x)
    return np.asarray(x)


class Case:
    """A contract instance: fn(*args) must satisfy post(out, args, P)."""

    def __init__(self, function, label, fn, args, post, kwargs=None, *, replace=(), extra=(),
                 lib=True, gen=None, pre=None, tol=1e-6, rules=None, scope='', tries=12,
                 symbolic=True, path_limit=2048, setup=None, eager=False,
                 abstract=False, alt=None):
        self.function = function
        self.label = label
        self.fn = fn
        self.args = args
        self.kwargs = kwargs or {}
        self.post = post
        self.replace = replace
        self.extra = extra
        self.lib = lib
        self.gen = gen
        self.pre = pre
        self.tol = tol
        self.rules = rules
        self.scope = scope
        self.tries = tries
        self.symbolic = symbolic
        self.path_limit = path_limit
        self.setup = setup
        self.eager = eager
        self.abstract = abstract      # callees are uninterpreted: a refutation needs a failing input
        self.alt = alt                # case to decide instead, if this one gives no answer

    @property
    def id(self):
        return f'{self.function}/{self.label}'


class CaseTimeout(BaseException):
    pass


class Check:
    def __init__(self, pid, tier, seed, level='proof'):
        self.pid = pid
        self.tier = tier
        self.seed = seed
        self.level = level
        self.t0 = time.time()
        self.obligations = []       # dicts
        self.by_backend = Counter()
        self.solver_time = Counter()
        self.functions = defaultdict(Counter)
        self.assumptions = set()
        self.bounded = []
        self.violations = []
        self.known = []
        self.cross = 0
        self.runs = 0
        self.cross_seen = Counter()
        self.total = True             # definedness is an obligation
        self.undischarged = []
        self.dropped = set()
        self.cases = {}
        self.samples = []
        self.replay = None
        self.primitives = set()
        self.rng = np.random.default_rng(seed)
        self.deadline = self.t0 + (700 if tier == 'thorough' else 540)
        self.case_limit = 240 if tier == 'thorough' else 120
        self.skipped = 0
        self.errors = []

    @property
    def thorough(self):
        return self.tier == 'thorough'

    # ---- bookkeeping
    def record(self, function, label, ok, backend, detail='', secs=0.0, scope=''):
        self.obligations.append(dict(function=function, label=label, status={True: 'discharged', False: 'refuted', None: 'open'}[ok],
                                     backend=backend, scope=scope))
        self.solver_time[backend] += secs
        f = self.functions[function]
        if ok:
            f['discharged'] += 1
            self.by_backend[backend] += 1
        else:
            f['open'] += 1
            self.undischarged.append(f'{function}/{label}: {detail}'[:400])

    def bounded_note(self, text, n=0):
        self.bounded.append(dict(what=text, evaluations=n))

    def assume(self, *texts):
        self.assumptions.update(texts)

    # ---- main entry for a contract instance
    def enough(self):
        """Whether failing inputs beyond the known findings are in hand, so that further cases add nothing."""
        if len(self.violations) > 15:
            return True
        known = load_known(self.pid)
        return sum(bool(v.get('input'))
                   and not any(e['match'] in (v['case'] + ' ' + str(v.get('detail'))) for e in known)
                   for v in self.violations) >= 3

    def run(self, case: Case):
        if self.replay is not None:
            if case.id == self.replay['case']:
                self._replay(case)
            return
        if case.id in self.cases:
            return
        self.cases[case.id] = case
        if time.time() > self.deadline + 60 or self.enough():
            self.skipped += 1
            self.record(case.function, case.label, None, 'none', 'time limit' if not self.violations else 'stopped after many failures', 0.0, case.scope)
            return
        if not case.symbolic:
            self._numeric(case, case.tries, bounded=True)
            return
        t0 = time.time()
        res = self.prove(case)
        if os.environ.get('CJV_TIME'):
            print(f'{time.time() - t0:7.2f} {case.id} {res if isinstance(res, str) else len(res)}', file=sys.stderr, flush=True)
        if isinstance(res, str):
            if case.alt is not None:
                self.run(case.alt)
            else:
                self._fallback(case, res)
            return
        if not res:
            self.errors.append(f'{case.id}: no obligations generated')
            return
        if case.abstract:
            res = [(r[0], None if r[1] is False and r[2] == 'normal-form' else r[1], *r[2:]) for r in res]
        if case.alt is not None and any(r[1] is not True and r[2] != 'definedness' for r in res):
            self.run(case.alt)
            return
        for r in res:
            self.record(case.function, *r)
        if any(r[1] is False for r in res):
            self._refuted(case, [(r[0], r[3], r[2]) for r in res if r[1] is False])
        elif any(r[1] is None and r[2] != 'definedness' for r in res):
            self._numeric(case, max(case.tries, 20), bounded=True, why='prover gave no answer')
        else:
            self.crosscheck(case)
        if any(r[1] is None and r[2] == 'definedness' for r in res):
            self._singular(case)

    def run_lemma(self, case: Case):
        """Discharge the contract of a callee; never a violation by itself."""
        res = self.prove(case)
        if isinstance(res, str) or not res:
            return False
        ok = all(r[1] for r in res if r[2] != 'definedness')
        if ok:
            self.cases.setdefault(case.id, case)
            for r in res:
                self.record(case.function, *r)
        return ok

    def prove(self, case: Case):
        """List of (label, ok, backend, detail, seconds, scope), or a reason string."""
        def late(*a):
            raise CaseTimeout('time limit')
        old = signal.signal(signal.SIGALRM, late)
        signal.setitimer(signal.ITIMER_REAL, self.case_limit)
        try:
            return self._prove(case)
        except CaseTimeout:
            return 'time limit'
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
            signal.signal(signal.SIGALRM, old)

    def _prove(self, case: Case):
        if os.environ.get('CJV_NUM'):
            return 'prover switched off'
        t0 = time.time()
        alg.reset()
        results = []
        try:
            with patched(lib=case.lib, replace=case.replace, extra=case.extra):
                if case.setup:
                    case.setup()
                syms = [x for x in leaves_of((tuple(case.args), dict(case.kwargs)))[0] if isinstance(x, Sym)]
                closed = None
                if not case.eager:
                    try:
                        closed, syms, outtree = trace(case.fn, case.args, case.kwargs)
                    except (jax.errors.ConcretizationTypeError, jax.errors.TracerArrayConversionError,
                            jax.errors.TracerIntegerConversionError, jax.errors.TracerBoolConversionError):
                        pass      # values must be known while running

            def go(ctx):
                if closed is None:
                    out, it = interpret_eager(case.fn, case.args, case.kwargs, ctx, case.rules)
                else:
                    out, it = interpret(closed, syms, outtree, ctx, case.rules)
                self.primitives.update(it.prims)
                self.assumptions.update(ASSUMED[n] for n in it.used if n in ASSUMED)
                sub = {s.name: s.atoms() for s in syms}
                a, k = fill(case.args, case.kwargs, sub)
                P = SymProver(ctx, self, case.label)
                P.args_kw = k
                spec = alg.RECORD = []
                try:
                    case.post(out, a, P)
                finally:
                    alg.RECORD = None
                if self.total and (ctx.denoms or ctx.positives):
                    bad = defined.unproved(ctx, spec)
                    P.partial = bad
                    if not bad:
                        P.results.append(('defined', True, '', 'definedness'))
                    else:
                        P.results.append(('defined', None, f'may be undefined where {str(bad[0])[:100]} vanishes', 'definedness'))
                return P
            for ctx, P in explore(go, case.path_limit):
                if any(r[1] is not True for r in P.results) and ctx.facts:
                    from . import smt
                    if smt.infeasible(ctx):
                        continue      # path cannot be taken
                results.append((ctx, P.results))
                if time.time() > self.deadline:
                    return 'time limit'
        except CaseTimeout:
            raise
        except (Undefined, ZeroDivisionError) as e:
            return f'{type(e).__name__}: {e}'
        except Unsupported as e:
            return f'not in the fragment: {e}'
        except Exception as e:
            if os.environ.get('CJV_DEBUG'):
                traceback.print_exc()
            return f'extraction failed: {type(e).__name__}: {e}'
        dt = time.time() - t0
        n = max(1, sum(len(r) for _, r in results))
        out = []
        for i, (ctx, rs) in enumerate(results):
            for lab, ok, detail, backend in rs:
                out.append((f'{case.label}:{lab}' + (f' path {i}' if len(results) > 1 else ''),
                            ok, backend, detail, dt / n, case.scope))
        return out

    # ---- failures
    def _refuted(self, case, refuted):
        hit = self._numeric(case, 40, bounded=False) or self._numeric(case, 60, bounded=False, extreme=True)
        if hit:
            return
        lab, detail, backend = refuted[0]
        if backend == 'shape' or backend == 'evaluation':
            # concrete facts about the traced program: re-run once decides
            pass
        self.violations.append(dict(case=case.id, obligation=lab, detail=detail, input=None))

    def _fallback(self, case, why, exc=None):
        self.record(case.function, case.label, None, 'none', why, 0.0, case.scope)
        if os.environ.get('CJV_DEBUG') and exc:
            print(exc, file=sys.stderr)
        if not self._numeric(case, max(case.tries, 20), bounded=True, why=why) and 'rounding' in why:
            self._numeric(case, 40, bounded=False, extreme=True)

    def _inputs(self, case, rng):
        leaves, _ = leaves_of((tuple(case.args), dict(case.kwargs)))
        sub = {}
        g = case.gen(rng) if case.gen else {}
        for x in leaves:
            if isinstance(x, Sym):
                sub[x.name] = np.asarray(g[x.name]) if x.name in g else x.numeric(rng)
        return sub

    def _eval(self, case, sub):
        """Run the real code; returns list of failures."""
        a, k = fill(case.args, case.kwargs, {n: jax.numpy.asarray(v) for n, v in sub.items()})
        an, kn = fill(case.args, case.kwargs, {n: np.array(v) for n, v in sub.items()})
        P = NumProver(case.tol)
        P.args_kw = kn
        try:
            out = case.fn(*a, **k)
            out = jax.tree_util.tree_map(lambda x: np.asarray(x) if isinstance(x, jax.Array) else x, out)
        except Exception as e:
            return [('call', f'raised {type(e).__name__}: {str(e)[:300]}')]
        try:
            case.post(out, an, P)
        except (TypeError, ValueError, IndexError, KeyError, AttributeError) as e:
            if os.environ.get('CJV_DEBUG'):
                traceback.print_exc()
            return P.failures + [('form', f'result does not have the documented form: {type(e).__name__}: {e}')]
        return [] if P.outside else P.failures

    def _numeric(self, case, n, bounded, why='', proved=False, extreme=False):
        """Evaluate on numbers. A proved case fails only if most inputs fail: single ones may be rounding."""
        done, failed = 0, []
        with patched(lib=False):
            for t in range(n):
                if done and time.time() > self.deadline:
                    break
                self.runs += 1
                if self.runs % 100 == 0:
                    jax.clear_caches()       # compiled programs would fill the memory
                rng = np.random.default_rng([self.seed, t, len(case.id)])
                sub = self._inputs(case, rng)
                if extreme:
                    sub = {k: _extreme(v, rng) for k, v in sub.items()}
                if case.pre and not case.pre(sub):
                    continue
                done += 1
                try:
                    fails = self._eval(case, sub)
                except Exception as e:
                    self.errors.append(f'{case.id}: {type(e).__name__}: {e}')
                    if os.environ.get('CJV_DEBUG'):
                        traceback.print_exc()
                    return False
                if fails and not proved:
                    self._violation(case, sub, fails)
                    return True
                if fails:
                    failed.append((sub, fails))
        if failed and n < 9:
            return self._numeric(case, 9, bounded, why, proved)
        if len(failed) > done / 2:
            self._violation(case, *failed[0])
            return True
        if bounded:
            self.bounded_note(f'{case.id}: run-time check of the contract' + (f' ({why})' if why else ''), done)
        return False

    def _singular(self, case):
        """Evaluate where entries vanish: the result must be finite where the specified one is."""
        free = [x for x in leaves_of((tuple(case.args), dict(case.kwargs)))[0]
                if isinstance(x, Sym) and x.kind in 'cr' and x.value is None and not x.nonzero and x.sign is None]
        if not free or (case.gen is not None):
            return
        done = 0
        with patched(lib=False):
            for t in range(4):
                rng = np.random.default_rng([self.seed, t, len(case.id), 1])
                sub = self._inputs(case, rng)
                for x in free:
                    v = np.array(sub[x.name])
                    f = v.reshape(-1)
                    if f.size:
                        f[rng.integers(f.size)] = 0
                        sub[x.name] = f.reshape(v.shape)
                if case.pre and not case.pre(sub):
                    continue
                done += 1
                with np.errstate(all='ignore'):
                    try:
                        fails = self._eval(case, sub)
                    except Exception:
                        continue
                fails = [f for f in fails if f[1] == 'non-finite value']
                if fails:
                    self._violation(case, sub, fails)
                    return
        self.bounded_note(f'{case.id}: evaluated at inputs with vanishing entries', done)

    def _violation(self, case, sub, fails):
        d = dict(case=case.id, input={k: _ser(v) for k, v in sub.items()},
                 failures=[list(f) for f in fails[:5]], obligation=fails[0][0], detail=fails[0][1])
        self.violations.append(d)

    def _replay(self, case):
        activate()
        sub = {k: _deser(v) for k, v in self.replay['input'].items()}
        fails = self._eval(case, sub)
        for f in fails:
            print('FAIL', *f)
        self.replay['reproduced'] = bool(fails)

    def crosscheck(self, case):
        """Run the contract on the real code with numbers (tests the verifier itself)."""
        n = self.cross_seen[case.function]
        self.cross_seen[case.function] += 1
        if n % (4 if self.thorough else 12) == 0:
            if not self._numeric(case, 2, bounded=False, proved=True):
                self.cross += 1

    def obligation_eval(self, function, label, ok, detail, inp):
        """An obligation without free values: decided by running the real code."""
        self.record(function, label, bool(ok), 'evaluation', '' if ok else str(detail)[:300])
        if not ok:
            self.fail(function, label, detail, inp or {'see': str(detail)[:300]})

    def identity(self, function, label, both, names, scope=''):
        """both(env) = (got, want), equal for all values of the named variables."""
        if self.replay is not None:
            return
        alg.reset()
        t0 = time.time()
        try:
            g, w = both({n: Frac.atom(alg.SPACE.cplx(n)) for n in names})
            d = to_obj(_as_array(g)) - to_obj(_as_array(w))
            ok = all(x.is_zero() for x in np.asarray(d, dtype=object).reshape(-1))
            detail = '' if ok else str(d)
        except Unsupported as e:
            ok, detail = None, str(e)
        self.record(function, label, ok, 'normal-form', detail, time.time() - t0, scope)
        if ok:
            return
        for t in range(20):
            rng = np.random.default_rng([self.seed, t])
            env = {n: complex(rng.normal() + 1j * rng.normal()) for n in names}
            P = NumProver()
            P.eq(label, *both(env))
            if P.failures:
                self.fail(function, label, P.failures[0][1], {n: str(v) for n, v in env.items()})
                return
        if ok is False:
            self.violations.append(dict(case=f'{function}/{label}', obligation=label, detail=detail, input=None))

    def bounded_eval(self, function, label, ok, detail, inp, n=1):
        """A run-time check of a contract at particular inputs (bounded, not proved)."""
        self.functions[function]['bounded'] += n
        self.bounded_note(f'{function}/{label}', n)
        if not ok:
            self.fail(function, label, detail, inp or {'see': str(detail)[:300]})

    def fail(self, function, label, detail, inp=None):
        """A contract violated by direct evaluation of the real code."""
        self.violations.append(dict(case=f'{function}/{label}', obligation=label, detail=str(detail)[:600],
                                    input=inp if inp is not None else {'see': str(detail)[:600]}))

    # ---- finish
    def finish(self, trusted=(), explanation=''):
        wall = time.time() - self.t0
        if self.replay is not None:
            print('reproduced' if self.replay.get('reproduced') else 'not reproduced')
            return 1 if self.replay.get('reproduced') else 0
        ob = len(self.obligations)
        dis = sum(o['status'] == 'discharged' for o in self.obligations)
        known = load_known(self.pid)
        real, knownhit = [], []
        for v in self.violations:
            k = next((e for e in known if e['match'] in (v['case'] + ' ' + str(v.get('detail')))), None)
            (knownhit if k else real).append((v, k))
        for v, k in knownhit:
            print(f'KNOWN-FINDING: property={self.pid} {k["what"]}')
        evd = VERIF / 'evidence'
        evd.mkdir(exist_ok=True)
        cov = dict(
            obligations=ob, discharged=dis,
            checker_cmd=f'python check.py {self.pid} --tier {self.tier}',
            trusted_base=sorted({
                'JAX tracing (jax.make_jaxpr) and the meaning of jaxpr primitives as in cjv/interp.py',
                'cjv exact arithmetic normal form (cjv/alg.py)',
                *trusted}),
            functions_under_contract={k: dict(v) for k, v in sorted(self.functions.items())},
            discharged_by=dict(self.by_backend),
            solver_seconds={k: round(v, 3) for k, v in self.solver_time.items()},
            undischarged=self.undischarged[:40],
            bounded_standins=self.bounded[:60],
            bounded_evaluations=sum(b['evaluations'] for b in self.bounded),
            crosschecked_on_real_code=self.cross,
            primitives_seen=sorted(self.primitives),
            extraction_drops='floating point rounding, dtype width, device placement and compilation; '
                             'Python control flow is the one taken while tracing; with symbolic sizes jacfwd/jacrev of a vector '
                             'are replaced by the definition of the Jacobian',
            explanation=explanation or EXPLANATION,
            evaluations=self.cross + sum(b['evaluations'] for b in self.bounded),
            samples=self.samples[:10] or [o['function'] + '/' + o['label'] for o in self.obligations[:5]],
        )
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level=self.level, coverage=cov,
                  assumptions=sorted(self.assumptions | {'real and complex floating point numbers are treated as exact; '
                                                         'float literals within a few ulp of q*pi^k denote that number'}),
                  wall_s=round(wall, 2), violations=len(real))
        (evd / f'{self.pid}.json').write_text(json.dumps(ev, indent=1, default=str))
        print(f'{self.pid}: {dis}/{ob} obligations discharged, {len(self.functions)} functions under contract, '
              f'{len(self.bounded)} bounded stand-ins, {wall:.1f}s')
        for u in self.undischarged[:int(os.environ.get("CJV_SHOW", 8))]:
            print('  open:', u)
        if real:
            withinput = [v for v, _ in real if v.get('input')]
            v = withinput[0] if withinput else real[0][0]
            rp = evd / f'replay-{self.pid}.json'
            rp.write_text(json.dumps(dict(property=self.pid, tier=self.tier, seed=self.seed, **v,
                                          how=f'python check.py {self.pid} --replay {rp}'), indent=1, default=str))
            for w, _ in real[:5]:
                print('  failed:', w['case'], '|', w['obligation'], '|', str(w['detail'])[:300])
            print(f'VIOLATION property={self.pid} replay={rp}' + ('' if withinput else ' no-failing-input-found'))
            return 1
        if self.errors:
            for e in self.errors[:10]:
                print('ERROR', e, file=sys.stderr)
            return 3
        if ob == 0 or (dis == 0 and not os.environ.get('CJV_NUM')):
            print('ERROR no obligations generated' if ob == 0 else 'ERROR no obligation discharged', file=sys.stderr)
            return 3
        return 0


def _extreme(v, rng):
    """Entries of very different size, real, imaginary, equal or nearly equal ones."""
    if v.dtype.kind not in 'fc' or not v.size:
        return v
    s = rng.choice([1., 1., 1e-2, 1e-6, 1e-9, 1e2, 1e6], size=v.shape)
    v = v * s
    if v.dtype.kind == 'c':
        k = rng.integers(6, size=v.shape)
        v = np.where(k == 0, v.real, np.where(k == 1, 1j * v.imag, v))
    k = rng.integers(4)
    if k < 2 and v.ndim:
        v = np.broadcast_to(v.reshape(-1)[0], v.shape).copy()
        if k == 1:
            v = v * (1 + 1e-4 * rng.normal(size=v.shape))
    return v


def load_known(pid):
    p = VERIF / 'KNOWN_FINDINGS.md'
    out = []
    if p.exists():
        for line in p.read_text().splitlines():
            if line.startswith(f'known: property={pid} '):
                rest = line.split(' ', 2)[2]
                if ' :: ' in rest:
                    m, w = rest.split(' :: ', 1)
                    out.append(dict(match=m.strip(), what=w.strip()))
    return out


def _ser(v):
    v = np.asarray(v)
    if v.dtype.kind == 'c':
        return dict(dtype=str(v.dtype), shape=list(v.shape), re=v.real.reshape(-1).tolist(), im=v.imag.reshape(-1).tolist())
    return dict(dtype=str(v.dtype), shape=list(v.shape), re=v.reshape(-1).tolist())


def _deser(d):
    x = np.asarray(d['re'], dtype=float if 'im' in d else d['dtype'])
    if 'im' in d:
        x = x + 1j * np.asarray(d['im'])
    return x.astype(d['dtype']).reshape(d['shape'])
