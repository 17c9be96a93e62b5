"""P04: converting a Model between representations preserves its value."""
import inspect

import numpy as np
import scipy.sparse as sp
import scipy.sparse.linalg as sla
import sympy
from numbers import Number

from .. import ev, gen

RULE = ('states are (conversion, class, value format, shape, momenta, number of terms); the converted object is evaluated '
        'at two random points and compared with the model')
REQUIRED_EVENTS = ('tosympy', 'tosympy nsimplify', 'lambdify', 'evalf', 'tocsr', 'toarray', 'tomodel', 'BlochModel(Model)',
                   'around', 'eliminate_zeros')
ASSUMPTIONS = ['vector (1D) valued models are not converted to sympy (sympy has no such object)',
               'undefined functions are not used in callables',
               'evalf is not used with LinearOperator values (scipy cannot add them to the initial 0 of the sum)',
                   'empty models are only converted between dense, sparse, Model and BlochModel']
TOL = 1e-9


def pick(rng, fmts=('dense', 'dense', 'scalar', 'csr', 'csc', 'lo'), cls=None, nice=False, oned=False, nmax=3,
         functions=False, nterms=None):
    import qsymm
    cls = cls or gen.choice(rng, [qsymm.Model, qsymm.Model, qsymm.BlochModel])
    momenta = gen.momenta_set(rng, dims=(1, 2, 3) if cls is qsymm.BlochModel else (0, 1, 2, 3))
    while True:
        fmt = gen.choice(rng, fmts)
        shape = gen.shape_for(rng, fmt, nmax=nmax)
        if len(shape) == 1 and not oned:
            continue
        m = gen.model(rng, fmt, shape, momenta, kind=gen.choice(rng, ['mixed', 'poly', 'bloch']), cls=cls,
                      dtype='int' if nice and fmt == 'dense' else None, nterms=nterms)
        if cls is qsymm.Model and not functions and any(k.atoms(sympy.core.function.AppliedUndef) for k in m.keys()):
            continue
        if nice:
            for k, v in list(m.items()):
                a = rng.integers(-4, 5, size=shape) / 2 + 1j * rng.integers(-2, 3, size=shape)
                if rng.random() < 0.3:
                    a = a * np.sqrt(2)
                m[k] = complex(a) if fmt == 'scalar' else a if fmt == 'dense' else \
                    sla.aslinearoperator(a) if fmt == 'lo' else type(v)(a)
        return cls, fmt, shape, momenta, m


def pts_of(rng):
    return ev.points(int(rng.integers(1 << 30)), 2)


def to_sympy(rng, rec):
    ns = bool(rng.random() < 0.35)
    cls, fmt, shape, momenta, m = pick(rng, nice=ns or rng.random() < 0.3)
    rec.note(cls=cls.__name__, model=str(m), nsimplify=ns, momenta=momenta)
    before = ev.digest(m) if fmt != 'lo' else None
    if not len(m):
        rec.skip('empty model')
    if ns and shape == ():
        rec.skip('nsimplify of scalar model gives a 1x1 matrix')
    expr = m.tosympy(nsimplify=ns)
    rec.check(before is None or ev.digest(m) == before, 'tosympy changed the model')
    rec.event('tosympy nsimplify' if ns else 'tosympy')
    for p in pts_of(rng):
        want, s = ev.mev(m, p), max(1., ev.mev_scale(m, p))
        got = ev.smev(expr, p)
        if got.size == 1 and want.size == 1:
            # sympy represents arrays with one element as scalars
            got, want = got.reshape(()), want.reshape(())
        rec.close(got, want, 'tosympy: value', tol=1e-6 if ns else TOL, scale=s)
    if ns:
        nums = [x for x in expr.atoms(sympy.Float)]
        rec.check(all(float(x) == int(float(x)) for x in nums) if cls.__name__ == 'Model' and not any(
            k.atoms(sympy.Float) for k in m.keys()) else True, 'nsimplify gives exact numbers', expr=expr)
    rec.sig('tosympy', cls.__name__, fmt, shape, momenta, ns, len(m))


def call(rng, rec):
    ns = bool(rng.random() < 0.15)
    cls, fmt, shape, momenta, m = pick(rng, nice=ns)
    if not len(m):
        rec.skip('empty model')
    if ns and shape == ():
        rec.skip('nsimplify of scalar model gives a 1x1 matrix')
    u = gen.choice(rng, ['plain', 'plain', 'onsite', 'hopping'])
    rec.note(cls=cls.__name__, model=str(m), nsimplify=ns, kind=u)
    kw = {} if u == 'plain' else {u: True}
    f = m.lambdify(nsimplify=ns, **kw)
    rec.event('lambdify')
    names = set()
    terms = {}
    for k, v in m.items():
        hop, c = k if isinstance(k, tuple) else (None, k)
        free = {s.name for s in c.free_symbols} - {'e'}
        if hop is not None:
            free |= {n for n, h in zip(momenta, hop) if abs(h) > 1e-12}
        if np.any(np.abs(ev.dense(v)) > 0):
            names |= free
            terms[str(k)] = 1
    args = list(inspect.signature(f).parameters)
    sites = {'plain': [], 'onsite': ['site'], 'hopping': ['site1', 'site2']}[u]
    rec.check(args == sites + sorted(names), 'arguments of the callable are the sorted names', got=args,
              expected=sites + sorted(names))
    for p in pts_of(rng):
        got = f(*([object() for _ in sites] + [p[n] for n in args[len(sites):]]))
        got2 = f(**{n: (None if n in sites else p[n]) for n in args})
        want, s = ev.mev(m, p), max(1., ev.mev_scale(m, p))
        got, got2 = np.asarray(got, complex), np.asarray(got2, complex)
        if got.size == 1 and want.size == 1:
            got, got2, want = got.reshape(()), got2.reshape(()), want.reshape(())
        rec.close(got, want, 'callable: value', tol=1e-6 if ns else TOL, scale=s)
        rec.close(got2, want, 'callable with keyword arguments: value', tol=1e-6 if ns else TOL, scale=s)
    rec.raises(ValueError, lambda: m.lambdify(onsite=True, hopping=True), 'onsite and hopping at once')
    rec.sig('lambdify', cls.__name__, fmt, shape, momenta, u, len(m))


def evaluate(rng, rec):
    cls, fmt, shape, momenta, m = pick(rng, oned=True, fmts=('dense', 'dense', 'scalar', 'csr', 'csc'))
    rec.note(cls=cls.__name__, model=str(m))
    if not len(m):
        rec.skip('empty model')
    for p in pts_of(rng):
        names = set(momenta) | {s.name for k in m.keys() for s in (k[1] if isinstance(k, tuple) else k).free_symbols} - {'e'}
        subs = {sympy.Symbol(n): p[n] for n in names}
        if rng.random() < 0.2:
            subs = {s: sympy.Float(v) for s, v in subs.items()}
        d = ev.digest(subs)
        got = m.evalf(subs=subs)
        rec.check(ev.digest(subs) == d, 'evalf changed the dictionary of parameters')
        if fmt == 'csr':
            rec.check(sp.issparse(got), 'evalf of a sparse model is sparse', got=type(got))
        rec.close(ev.dense(got), ev.mev(m, p), 'evalf: value', tol=TOL, scale=max(1., ev.mev_scale(m, p)))
    rec.event('evalf')
    rec.sig('evalf', cls.__name__, fmt, shape, momenta, len(m))


def storage(rng, rec):
    import qsymm
    if rng.random() < 0.06:
        cls = gen.choice(rng, [qsymm.Model, qsymm.BlochModel])
        momenta = gen.momenta_set(rng, dims=(1, 2))
        fmt, shape = gen.choice(rng, [('dense', (2, 3)), ('csr', (2, 2))])
        m = cls({}, momenta=momenta, shape=shape, format=np.ndarray if fmt == 'dense' else sp.csr_matrix)
    else:
        cls, fmt, shape, momenta, m = pick(rng, oned=True)
    rec.note(cls=cls.__name__, model=str(m), momenta=momenta, fmt=fmt)
    for conv in ('toarray', 'tocsr'):
        if conv == 'tocsr' and len(shape) != 2:
            continue
        new = getattr(m, conv)()
        want_fmt = np.ndarray if conv == 'toarray' else sp.csr_matrix
        rec.event(conv)
        rec.check(type(new) is cls and new.format is want_fmt and tuple(new.shape) == shape, conv + ': type, format and shape',
                  got=(type(new), new.format, new.shape))
        rec.check(tuple(map(str, new.momenta)) == tuple(momenta), conv + ': momenta', got=new.momenta)
        rec.check(set(map(str, new.keys())) == set(map(str, m.keys())), conv + ': terms')
        for k, v in new.items():
            rec.check(isinstance(v, want_fmt) and v.shape == shape, conv + ': every value is converted', got=type(v))
            rec.close(ev.dense(v), ev.dense(m[k]), conv + ': value', tol=1e-14)
        # usable in further arithmetic
        p = pts_of(rng)[0]
        two = new + new
        rec.close(ev.mev(two, p), 2 * ev.mev(m, p), conv + ': sum of converted models', tol=TOL, scale=max(1., 2 * ev.mev_scale(m, p)))
        if len(shape) == 2 and shape[0] == shape[1]:
            sq = new @ new
            v = ev.mev(m, p)
            rec.close(ev.mev(sq, p), v @ v, conv + ': product of converted models', tol=TOL,
                      scale=max(1., shape[0] * ev.mev_scale(m, p)**2))
    rec.sig('storage', cls.__name__, fmt, shape, momenta, len(m))


def bloch_roundtrip(rng, rec):
    import qsymm
    kind = gen.choice(rng, ['bloch to model', 'model to bloch'])
    ns = bool(rng.random() < 0.3)
    while True:
        momenta = gen.momenta_set(rng, dims=(1, 2, 3))
        fmt = gen.choice(rng, ['dense', 'dense', 'scalar', 'csr', 'lo'])
        shape = gen.shape_for(rng, fmt, nmax=3)
        cls = qsymm.BlochModel if kind == 'bloch to model' else qsymm.Model
        m = gen.model(rng, fmt, shape, momenta, kind='bloch', cls=cls)
        break
    rec.note(kind=kind, model=str(m), momenta=momenta, nsimplify=ns)
    if kind == 'bloch to model':
        new = m.tomodel(nsimplify=ns)
        back = qsymm.BlochModel(new)
        rec.event('tomodel')
    else:
        new = qsymm.BlochModel(m)
        back = new.tomodel()
        rec.event('BlochModel(Model)')
    for x, c in ((new, qsymm.Model if kind == 'bloch to model' else qsymm.BlochModel), (back, cls)):
        rec.check(type(x) is c and tuple(map(str, x.momenta)) == tuple(momenta) and x.format is m.format
                  and tuple(x.shape) == shape, kind + ': class, momenta, format and shape',
                  got=(type(x), x.momenta, x.format, x.shape))
        for p in pts_of(rng):
            rec.close(ev.mev(x, p), ev.mev(m, p), kind + ': value', tol=1e-6, scale=max(1., ev.mev_scale(m, p)))
    if kind == 'bloch to model':
        rec.check(len(new) == len(m) and len(back) == len(m), kind + ': number of terms')
    rec.sig(kind, fmt, shape, momenta, ns, len(m))


def around(rng, rec):
    cls, fmt, shape, momenta, m = pick(rng, oned=True, fmts=('dense', 'dense', 'scalar', 'csr', 'csc'))
    d = int(gen.choice(rng, [0, 1, 2, 3, 3, 4, 6]))
    scale = 10. ** int(rng.integers(-d, 2))
    m = m * scale
    default = d == 3 and rng.random() < 0.5
    rec.note(cls=cls.__name__, model=str(m), decimals=d)
    new = m.around() if default else m.around(d)
    rec.event('around')
    rec.check(type(new) is cls and new.format is m.format and tuple(new.shape) == shape and new.momenta == m.momenta,
              'around: class, format, shape and momenta')
    half = 0.5 * 10. ** -d
    for k, v in m.items():
        v, w = ev.dense(v), ev.dense(new[k])
        eps = 1e-12 * (1 + np.max(np.abs(v))) if v.size else 0
        dev = max(np.max(np.abs((v - w).real)), np.max(np.abs((v - w).imag))) if v.size else 0
        rec.check(dev <= half + eps + 1e-8, 'rounding changes an entry by more than half a unit', key=k, dev=dev, half=half)
        q = w * 10. ** d
        rec.check(np.allclose(q, np.round(q.real) + 1j * np.round(q.imag), atol=1e-6, rtol=1e-9),
                  'rounded entries are multiples of the unit', key=k)
    rec.check(set(map(str, new.keys())) <= set(map(str, m.keys())), 'around adds no term')
    for k, v in new.items():
        rec.check(np.any(ev.dense(v) != 0), 'rounded term that vanishes is kept', key=k)
    rec.sig('around', cls.__name__, fmt, shape, d, len(m), len(new))


def small_terms(rng, rec):
    import qsymm
    cls, fmt, shape, momenta, m = pick(rng, oned=True, fmts=('dense', 'dense', 'csr', 'csc'), nterms=gen.choice(rng, [4, 4, 9]))
    keys = list(m.keys())
    top = gen.choice(rng, [3, 3, 9, -6])
    for k in keys:
        m[k] = m[k] * complex(10. ** float(rng.uniform(-12, top)))
    if fmt == 'dense':
        m = cls({k: v.astype(complex) for k, v in m.items()}, momenta=momenta, shape=shape, format=np.ndarray)
    kw = {}
    if rng.random() < 0.7:
        kw = dict(rtol=10. ** float(rng.uniform(-9, -1)), atol=10. ** float(rng.uniform(-10, 0)))
        if rng.random() < 0.3:
            kw.pop(gen.choice(rng, ['rtol', 'atol']))
    rtol, atol = kw.get('rtol', 1e-5), kw.get('atol', 1e-8)
    rec.note(cls=cls.__name__, model=str(m), kw=kw)
    new = m.eliminate_zeros(**kw)
    rec.event('eliminate_zeros')
    norms = {k: np.linalg.norm(ev.dense(v)) for k, v in m.items()}
    tol = max(atol, rtol * max(norms.values(), default=0))
    rec.check(type(new) is cls and new.format is m.format and tuple(new.shape) == shape and new.momenta == m.momenta,
              'eliminate_zeros: class, format, shape and momenta')
    for k, n in norms.items():
        if n > tol * (1 + 1e-6):
            rec.check(k in new, 'term larger than the tolerance is dropped', key=k, norm=n, tol=tol)
            rec.close(ev.dense(new[k]), ev.dense(m[k]), 'kept terms are unchanged', tol=1e-15)
        elif n < tol * (1 - 1e-6):
            rec.check(k not in new, 'term smaller than the tolerance is kept', key=k, norm=n, tol=tol)
    rec.check(set(map(str, new.keys())) <= set(map(str, m.keys())), 'eliminate_zeros adds no term')
    e = m.zeros_like().eliminate_zeros()
    rec.check(len(e) == 0 and tuple(e.shape) == shape, 'eliminate_zeros of empty model')
    rec.sig('small', cls.__name__, fmt, shape, len(m), len(new))


FAMILIES = {
    'tosympy': (to_sympy, 400, 6000),
    'lambdify': (call, 300, 4000),
    'evalf': (evaluate, 300, 4000),
    'storage': (storage, 400, 6000),
    'bloch': (bloch_roundtrip, 300, 5000),
    'around': (around, 400, 6000),
    'eliminate_zeros': (small_terms, 400, 6000),
}
