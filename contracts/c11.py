"""Monte Carlo integration."""
import jax
import jax.numpy as jnp
import numpy as np

from cyjax import util, Dwork, Fermat
from cjv.core import Case
from cjv.extract import Sym, activate, opaque, opaque_call, key_term, _stub_normal
from cjv import alg
from cjv.interp import to_obj
from .common import varieties
from . import sizes

LOG = []          # samples drawn while running on numbers


def extracting():
    return jax.random.normal is _stub_normal


def record(key, z, w):
    LOG.append((tuple(np.asarray(key).tolist()), np.asarray(z), np.asarray(w)))


def sampler(wdim=0, cplx=False):
    def sample(key, count):
        z = jax.random.normal(key, (count, 2))
        w = jax.random.normal(jax.random.fold_in(key, 7), (count,) + (1,) * wdim)
        if not extracting():
            jax.debug.callback(record, key, z, w)
        return (z + 1j * z[:, ::-1] if cplx else z), w
    return sample


def own_keys(keys, P):
    """No key is derived from a key that was used up by a sampler."""
    keys = list(keys)
    if P.symbolic:
        def within(a, b):
            return isinstance(b, tuple) and (a in b or any(within(a, x) for x in b))
        bad = [b for a in keys for b in keys if within(a, b)]
    else:
        sub = {tuple(np.asarray(s).tolist()) for k in keys for s in jax.random.split(jnp.array(k, jnp.uint32))}
        bad = [k for k in keys if k in sub]
    P.same('no key derived from the key of another batch', len(bad), 0)


def pooled(P, batches, size, wdim=0, cplx=False):
    """The samples that were drawn: points and weights of all batches; keys differ."""
    if P.symbolic:
        d = P.ctx.draws
        keys = [tag[1] for tag in d if tag[0] == 'n' and tag[2] == (size, 2)]
        pairs = [(d[('n', k, (size, 2), ())], d[('n', ('fold_in', k, '7'), (size,) + (1,) * wdim, ())]) for k in keys]
    else:
        jax.effects_barrier()
        keys = [k for k, _, _ in LOG]
        pairs = [(z, w) for _, z, w in LOG]
        LOG.clear()
    P.same('number of batches drawn', len(keys), batches)
    P.same('every batch has its own key', len(set(keys)), batches)
    own_keys(keys, P)
    zs = np.concatenate([z for z, _ in pairs])
    ws = np.concatenate([w for _, w in pairs])
    if cplx:
        zs = zs + (alg.I if P.symbolic else 1j) * zs[:, ::-1]
    return zs, ws


def mean(xs):
    out = xs[0]
    for x in xs[1:]:
        out = out + x
    return out / len(xs)


def fresh():
    jax.effects_barrier()
    LOG.clear()


INTEGRANDS = [
    # label, integrand, weight dimensions, complex
    ('value of the first coordinate', lambda z: z[:, 0], 0, False),
    ('product', lambda z: z[:, 0] * z[:, 1] ** 2 - 3, 0, False),
    ('vector valued', lambda z: z * z[:, :1], 1, False),
    ('complex valued', lambda z: z[:, 0] ** 2 + z[:, 1], 0, True),
]


def run(C):
    sizes.integrate(C)
    sizes.batches(C)
    sizes.volume(C)
    key = Sym('key', (2,), kind='k')
    for label, f, wdim, cplx in INTEGRANDS:
        sample = sampler(wdim, cplx)
        for count in (1, 2, 3, 5):
            for var in (False, True):
                def fn(k):
                    fresh()
                    return util.mc_integrate(k, count, f, sample, var)

                def post(out, a, P):
                    zs, ws = pooled(P, 1, count, wdim, cplx)
                    check(P, out, f(zs) * ws, var)
                C.run(Case('cyjax.util.mc_integrate', f'{label}: {count} samples{", variance" if var else ""}', fn, (key,), post, scope=f'{count} samples'))
        for batches, size in [(1, 1), (1, 3), (2, 1), (2, 2), (3, 2), (2, 3), (4, 1), (5, 2)]:
            for var in (False, True):
                def fnb(k):
                    fresh()
                    return util.mc_integrate_batched(k, batches, size, f, sample, var)

                def postb(out, a, P):
                    zs, ws = pooled(P, batches, size, wdim, cplx)
                    check(P, out, f(zs) * ws, var)
                C.run(Case('cyjax.util.mc_integrate_batched', f'{label}: {batches} batches of {size}{", variance" if var else ""}', fnb, (key,), postb,
                           scope=f'{batches}x{size} samples'))
    not_a_number(C)
    volumes(C)


def not_a_number(C):
    """A sample without a value is not left out of the mean."""
    activate()

    def sample(key, count):
        z = jax.random.normal(key, (count,))
        return z, jnp.where(z > 0, jnp.nan, 1.)
    key = jax.random.PRNGKey(C.seed)
    for label, fn in [('mc_integrate', lambda f: util.mc_integrate(key, 60, f, sample, True)),
                      ('mc_integrate_batched', lambda f: util.mc_integrate_batched(key, 60, 1, f, sample, True))]:
        out = np.array(fn(lambda z: z))
        C.bounded_eval(f'cyjax.util.{label}', 'sample that is not a number', bool(np.isnan(out).all()), f'mean and variance {out}', {'weights': 'nan where positive'})


def check(P, out, vals, var):
    m = mean(vals)
    if not var:
        P.eq('mean', out, m)
        return
    P.same('two results', len(out), 2)
    P.eq('mean', out[0], m)
    P.eq('variance', out[1], (mean(vals ** 2) - m ** 2) / len(vals))


# ------------------------------------------------------------ volume

@opaque('c_sample')
def _r_sample(it, args, static):
    key, par = args
    n, count, affine = static['n'], static['count'], static['affine']
    t = key_term(key)
    it.ctx.notes.append(('sample', t, count, affine, [x.key() for x in to_obj(par).reshape(-1)]))
    z = np.empty((count, n), dtype=object)
    w = np.empty((count,), dtype=object)
    for k in range(count):
        for i in range(n):
            z[k, i] = alg.Frac.atom(alg.SPACE.cplx(f'point{t}[{k},{i}]'))
        w[k] = weight_atom(t, par, count, k)
    return [z, w]


def weight_atom(t, par, count, k):
    return alg.Frac.atom(alg.SPACE.fn('sampled weight', (str(t), count, k, *to_obj(par).reshape(-1)), real=True))


def recording(X, n):
    """X with its sampling observed (numbers) or replaced by its contract (extraction)."""
    base = type(X)

    class Observed(base):
        def __init__(self):
            self.__dict__.update(X.__dict__)

        def sample_intersect(self, key, params, count, affine=False, weights=False):
            if extracting():
                pp = jnp.zeros((0,)) if params is None else params
                z, w = opaque_call('c_sample', [((count, n), np.complex128), ((count,), np.float64)], key, pp,
                                   n=n, count=int(count), affine=bool(affine))
                if affine:
                    raise alg.Unsupported('affine samples')
                return (z, w) if weights else z
            out = base.sample_intersect(self, key, params, count, affine, True)
            z = out[0][0] if affine else out[0]
            jax.debug.callback(record, key, z, out[1])
            return out if weights else out[0]
    return Observed()


def volumes(C):
    key = Sym('key', (2,), kind='k')
    for name in ('Dwork(1)', 'Fermat(1)', 'cubic, two parameters', 'Fermat(2)'):
        make, Q, npar = varieties()[name]
        n = len(Q.terms[0][2])
        activate()
        X = recording(make(), n)
        par, tail = ((Sym('par', (npar,)),), ()) if npar else ((), (None,))
        for batches, size in [(1, 2), (2, 1), (3, 2), (2, 3)]:
            for var in (False, True):
                def fn(k, *p):
                    fresh()
                    return X.compute_vol(k, *(p or tail), batches, size, var)

                def post(out, a, P):
                    if P.symbolic:
                        used = [x for x in P.ctx.notes if x[0] == 'sample']
                        keys = {x[1] for x in used}
                        P.same('every batch has its own key', len(keys), batches)
                        own_keys(keys, P)
                        P.same('batch size', {x[2] for x in used}, {size})
                        ws = np.array([weight_atom(t, a[1] if npar else np.zeros(0), size, k) for t in sorted(keys, key=str) for k in range(size)], dtype=object)
                    else:
                        jax.effects_barrier()
                        P.same('every batch has its own key', len({k for k, _, _ in LOG}), batches)
                        own_keys([k for k, _, _ in LOG], P)
                        ws = np.concatenate([w for _, _, w in LOG])
                        for _, z, w in LOG:
                            from .c10 import ratio
                            for zz, ww in zip(z, w):
                                j = int(np.argmax(np.abs(zz)))
                                za = np.delete(zz, j) / zz[j]
                                P.eq('weight of the point', ww, ratio(P, za, Q.affine(j).grad(za, a[1] if npar else ())))
                    check(P, out, ws, var)
                C.run(Case('VarietySingle.compute_vol', f'{name}: {batches} batches of {size}{", variance" if var else ""}', fn, (key,) + par, post,
                           scope=f'{name}, {batches}x{size} samples', abstract=True))
