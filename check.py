#!/opt/venv/bin/python
"""Run the check of one property: check.py C01 [--tier quick|thorough] [--replay file]"""
import argparse
import importlib
import json
import os
import sys
import traceback

os.environ.setdefault('JAX_PLATFORMS', 'cpu')
os.environ.setdefault('MPLBACKEND', 'Agg')
os.environ.setdefault('TF_CPP_MIN_LOG_LEVEL', '3')
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)


def raised_in_code(e):
    """Where the code under test raised, if it was called directly by a contract and raised itself."""
    if not isinstance(e, (ValueError, TypeError, IndexError, KeyError, AttributeError, AssertionError, ArithmeticError,
                          RuntimeError, NotImplementedError)) and not type(e).__module__.startswith(('sympy', 'flax')):
        return None
    if isinstance(e, RecursionError) or 'Xla' in type(e).__name__ or (isinstance(e, TypeError) and 'argument' in str(e)):
        return None
    import cyjax
    code = os.path.dirname(os.path.realpath(cyjax.__file__)) + os.sep
    own = [f for f in traceback.extract_tb(e.__traceback__)
           if os.path.realpath(f.filename).startswith((code, HERE + os.sep))]
    if not own or not os.path.realpath(own[-1].filename).startswith(code):
        return None
    caller = [f for f in own if not os.path.realpath(f.filename).startswith(code)][-1]
    return own[-1], caller


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '0') or 0))
    ap.add_argument('--replay')
    a = ap.parse_args()
    import warnings
    warnings.filterwarnings('ignore')
    try:
        from cjv.core import Check
        mod = importlib.import_module(f'contracts.{a.property.lower()}')
        C = Check(a.property, a.tier, a.seed, getattr(mod, 'LEVEL', 'proof'))
        if a.replay:
            with open(a.replay) as f:
                C.replay = json.load(f)
        from contracts.lemmas import Lemmas
        C.uses = Lemmas(C)
        try:
            mod.run(C)
        except Exception as e:
            site = raised_in_code(e)
            if site is None or C.replay:
                raise
            f, caller = site
            traceback.print_exc()
            C.fail(f'{os.path.basename(f.filename)[:-3]}.{f.name}', 'call', f'raised {type(e).__name__}: {e}',
                   {'call': f'{os.path.basename(caller.filename)}:{caller.lineno}: {caller.line}',
                    'raised at': f'{os.path.basename(f.filename)}:{f.lineno}: {f.line}'})
        return C.finish(getattr(mod, 'TRUSTED', ()), getattr(mod, 'EXPLANATION', ''))
    except Exception:
        traceback.print_exc()
        return 3


if __name__ == '__main__':
    sys.exit(main())
