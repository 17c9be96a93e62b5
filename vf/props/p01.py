"""P01: Model arithmetic is pointwise matrix arithmetic.

Random programs over the overloaded operators run on the real Models; a shadow
interpreter executes the same program on the dense values of the operands at
two random points.  Every intermediate result is compared.
"""
import numpy as np
import scipy.sparse as sp
import scipy.sparse.linalg as sla
import sympy
from numbers import Number

from .. import ev, gen
from ..mon import Monitors
from .. import pipelines

RULE = ('states are (workload, value format, shape, operator sequence) of random straight line programs of '
        'Model/BlochModel operators; every intermediate value is compared with a shadow execution on dense '
        'values at two random points')
REQUIRED_EVENTS = ('op +', 'op @', 'op *model', 'op conj', 'op *symbol', 'keep product')
ASSUMPTIONS = ['parameters and momenta are real at the evaluation points',
               'rounding errors below 1e-7 of the largest intermediate value are not violations',
               'not judged: mixing Model and BlochModel operands, elementwise products of sparse models with arrays, '
               'conj/trace/reshape of LinearOperator models (not provided by scipy for them)']

FMT = {'scalar': np.complex128, 'dense': np.ndarray, 'csr': sp.csr_matrix, 'csc': sp.csc_matrix,
       'lo': sla.LinearOperator}
TOL = 1e-10


class Val:
    """A model with its shadow values."""

    def __init__(self, model, vals, scale, fmt):
        self.model, self.vals, self.scale, self.fmt = model, vals, scale, fmt

    @property
    def shape(self):
        return self.vals[0].shape


def shadow(model, pts, fmt):
    return Val(model, [ev.mev(model, p) for p in pts], [ev.mev_scale(model, p) for p in pts], fmt)


def validate(rec, v, pts, cls, momenta, op):
    m = v.model
    rec.check(type(m) is cls, 'result of %s has type %s' % (op, cls.__name__), got=type(m))
    rec.check(tuple(map(str, m.momenta)) == tuple(momenta), 'momenta after %s' % op, got=m.momenta, expected=momenta)
    rec.check(tuple(m.shape) == v.shape, 'shape reported after %s' % op, got=m.shape, expected=v.shape)
    rec.check(isinstance(m.format, type) and (m.format is FMT[v.fmt] or v.fmt == 'csc' and issubclass(m.format, sp.spmatrix)),
              'format reported after %s' % op, got=m.format, expected=FMT[v.fmt])
    for k, val in m.items():
        ok = isinstance(val, Number) if m.format is np.complex128 else isinstance(val, m.format)
        rec.check(ok, 'value has the reported format after %s' % op, key=k, type=type(val), format=m.format)
        rec.check(tuple(np.shape(val) if isinstance(val, Number) else val.shape) == v.shape,
                  'value has the reported shape after %s' % op, key=k)
    for p, want, s in zip(pts, v.vals, v.scale):
        rec.close(ev.mev(m, p), want, 'value after %s' % op, tol=TOL, scale=s)


def const(rng, fmt, shape):
    return gen.value(rng, fmt, shape)


def program(rng, rec, fmt, cls, nops):
    import qsymm
    bloch = cls is qsymm.BlochModel
    momenta = gen.momenta_set(rng, dims=(1, 2, 3)) if bloch else gen.momenta_set(rng)
    shape = gen.shape_for(rng, fmt, square=(fmt in ('csr', 'csc', 'lo') or rng.random() < 0.6), nmax=3)
    pts = ev.points(int(rng.integers(1 << 30)), 2)
    pool_keys = gen.keys(rng, 4, momenta, 'bloch' if bloch else 'mixed')
    pool = []
    for _ in range(int(rng.integers(2, 4))):
        if rng.random() < 0.1:
            m = cls({}, momenta=momenta, shape=shape, format=FMT[fmt])
        else:
            m = gen.model(rng, fmt, shape, momenta, pool=pool_keys, cls=cls)
        pool.append(shadow(m, pts, fmt))
        validate(rec, pool[-1], pts, cls, momenta, 'construction')
    rec.note(cls=cls.__name__, fmt=fmt, shape=shape, momenta=momenta, models=[str(v.model) for v in pool])
    ops = []
    for _ in range(nops):
        a = pool[int(rng.integers(len(pool)))]
        same = [v for v in pool if v.fmt == a.fmt and v.shape == a.shape]
        b = same[int(rng.integers(len(same)))]
        choices = ['neg', '*num', 'num*', '/', '*symbol', 'symbol*', 'copy', '+', '+', '-', '+0', 'sum']
        nd = len(a.shape)
        if a.fmt != 'lo':
            choices += ['conj', 'T']
        else:
            choices += ['T']
        if a.fmt in ('scalar', 'dense') or a.fmt == 'csr':
            choices += ['+const', 'const+', '-const']
        if a.fmt in ('scalar', 'dense'):
            choices += ['*model', '*model', '*array', 'array*', 'reshape'][:3 if a.fmt == 'scalar' else 5]
            if a.fmt == 'scalar':
                choices += ['array*']
        if nd == 2:
            choices += ['@', '@', '@', '@const', '@const']
            choices += ['const@'] if a.fmt not in ('csc',) else []
            if a.fmt != 'lo':
                choices += ['trace'] if a.shape[0] == a.shape[1] else []
        op = gen.choice(rng, choices)
        if op == '@' and a.fmt not in ('scalar',):
            same = [v for v in pool if v.fmt == a.fmt and len(v.shape) == 2 and v.shape[0] == a.shape[1]]
            if not same:
                continue
            b = same[int(rng.integers(len(same)))]
        if max(max(a.scale), max(b.scale)) > 1e4 or len(a.model) * len(b.model) > 80:
            continue
        f, s, fmt2 = None, None, a.fmt
        if op == 'neg':
            r, f = -a.model, lambda x, y, i: -x
        elif op in ('*num', 'num*', '/'):
            z = gen.number(rng)
            if rng.random() < 0.2:
                z = gen.choice(rng, [sympy.Integer(3), sympy.Rational(2, 7), sympy.Float(0.3), sympy.pi if op == 'x' else sympy.Integer(-2)])
            zc = complex(z)
            if op == '/':
                if zc == 0:
                    continue
                r, f = a.model / z, lambda x, y, i: x / zc
            elif op == '*num':
                r, f = a.model * z, lambda x, y, i: x * zc
            else:
                if isinstance(z, sympy.Basic):
                    z = zc
                r, f = z * a.model, lambda x, y, i: zc * x
            s = lambda sa, sb: sa * (abs(1 / zc) if op == '/' else abs(zc))
        elif op in ('*symbol', 'symbol*'):
            e = gen.monomial(rng, () if bloch else momenta, p_par=1)
            if rng.random() < 0.15:
                e = gen.choice(rng, [sympy.I, sympy.sqrt(2), sympy.Symbol('a') * sympy.I, 2 * sympy.Symbol('b')])
            r = a.model * e if op == '*symbol' else e * a.model
            ve = [ev.kev(e, p) for p in pts]
            f = lambda x, y, i: x * ve[i]
            s = lambda sa, sb: sa * max(map(abs, ve))
        elif op == 'copy':
            r, f = a.model.copy(), lambda x, y, i: x
        elif op in ('+', '-'):
            r = a.model + b.model if op == '+' else a.model - b.model
            f = (lambda x, y, i: x + y) if op == '+' else (lambda x, y, i: x - y)
            s = lambda sa, sb: sa + sb
        elif op == '+0':
            r = a.model + 0 if rng.random() < 0.5 else 0 + a.model
            f = lambda x, y, i: x
        elif op == 'sum':
            r, f = sum([a.model, b.model, a.model]), lambda x, y, i: 2 * x + y
            s = lambda sa, sb: 2 * sa + sb
        elif op in ('+const', 'const+', '-const'):
            c = const(rng, a.fmt, a.shape)
            if op == 'const+' and a.fmt == 'csr':
                op = '+const'
            cd = ev.dense(c)
            r = a.model + c if op == '+const' else c + a.model if op == 'const+' else a.model - c
            f = (lambda x, y, i: x - cd) if op == '-const' else (lambda x, y, i: x + cd)
            s = lambda sa, sb: sa + (np.max(np.abs(cd)) if cd.size else 0)
        elif op == 'conj':
            r, f = a.model.conj(), lambda x, y, i: x.conj()
        elif op == 'T':
            r, f = a.model.T(), lambda x, y, i: x.T
        elif op == 'trace':
            r, f = a.model.trace(), lambda x, y, i: np.array(np.trace(x))
            s = lambda sa, sb: a.shape[0] * sa
            fmt2 = 'scalar'
        elif op == 'reshape':
            newshape = gen.choice(rng, [a.shape[::-1], (int(np.prod(a.shape)),), (1, int(np.prod(a.shape))), a.shape + (1,)])
            if len(newshape) > 2:
                newshape = newshape[:2] if np.prod(newshape[:2]) == np.prod(a.shape) else a.shape
            style = gen.choice(rng, ['tuple', 'tuple', 'order', 'spread'])
            if style == 'order':
                order = gen.choice(rng, ['F', 'C'])
                rec.event('reshape with order')
                r, f = a.model.reshape(newshape, order=order), lambda x, y, i: x.reshape(newshape, order=order)
            elif style == 'spread':
                r, f = a.model.reshape(*newshape), lambda x, y, i: x.reshape(newshape)
            else:
                r, f = a.model.reshape(newshape), lambda x, y, i: x.reshape(newshape)
        elif op == '*model':
            r, f = a.model * b.model, lambda x, y, i: x * y
            s = lambda sa, sb: sa * sb
        elif op in ('*array', 'array*'):
            c = gen.array(rng, a.shape if a.fmt == 'dense' else gen.shape_for(rng, 'dense', nmax=3))
            r = a.model * c if op == '*array' else c * a.model
            f = lambda x, y, i: x * c
            s = lambda sa, sb: sa * np.max(np.abs(c))
            fmt2 = 'dense'
        elif op == '@':
            r, f = a.model @ b.model, lambda x, y, i: x @ y
            s = lambda sa, sb: a.shape[1] * sa * sb
        elif op in ('@const', 'const@'):
            n = a.shape[1] if op == '@const' else a.shape[0]
            k = int(rng.integers(1, 4))
            shp = (n, k) if op == '@const' else (k, n)
            if rng.random() < 0.2:
                shp = (n,)
            c = gen.array(rng, shp)
            if a.fmt == 'csr' and len(shp) == 2 and op == '@const' and rng.random() < 0.5:
                c = sp.csr_matrix(c)
                fmt2 = 'csr'
            else:
                fmt2 = 'dense'
            cd = ev.dense(c)
            r = a.model @ c if op == '@const' else c @ a.model
            f = (lambda x, y, i: x @ cd) if op == '@const' else (lambda x, y, i: cd @ x)
            s = lambda sa, sb: n * sa * np.max(np.abs(cd))
        vals = [np.asarray(f(x, y, i)) for i, (x, y) in enumerate(zip(a.vals, b.vals))]
        sc = [s(x, y) if s else x for x, y in zip(a.scale, b.scale)]
        ops.append(op)
        rec.event('op ' + op)
        rec.context.append(op)
        v = Val(r, vals, sc, fmt2)
        validate(rec, v, pts, cls, momenta, op)
        pool.append(v)
    # operands were not disturbed by what was computed from them
    for v in pool:
        validate(rec, v, pts, cls, momenta, 'end of program')
    rec.sig(cls.__name__, fmt, shape, tuple(ops))


def make(fmt, bloch=False):
    def case(rng, rec):
        import qsymm
        program(rng, rec, fmt, qsymm.BlochModel if bloch else qsymm.Model, int(rng.integers(4, 9)))
    return case


def keep_products(rng, rec):
    """Terms discarded by `keep` are the only terms missing."""
    import qsymm
    momenta = gen.momenta_set(rng, dims=(1, 2, 3))
    fmt = gen.choice(rng, ['scalar', 'dense', 'csr'])
    shape = () if fmt == 'scalar' else (2, 2)
    ks = [gen.monomial(rng, momenta, max_power=2) for _ in range(8)]
    prods = {sympy.expand(x * y) for x in ks for y in ks} | set(ks) | {sympy.Integer(1)}
    prods = sorted(prods, key=sympy.default_sort_key)
    keep = [p for p in prods if rng.random() < 0.5] or prods[:1]

    def term_dict():
        return {k: gen.value(rng, fmt, shape) for k in ks if rng.random() < 0.7}
    da, db = term_dict(), term_dict()
    u = rng.random()
    ka = keep if u < 0.4 else None if u < .6 else [p for p in prods if rng.random() < 0.5] or prods[-1:]
    if not da or not db:
        rec.skip('empty operand')
    A = qsymm.Model(da, momenta=momenta, keep=ka)
    B = qsymm.Model(db, momenta=momenta, keep=keep)
    rec.note(keep=keep, A=da, B=db)

    def restrict(d, kp):
        return {k: ev.dense(v) for k, v in d.items() if kp is None or k in kp}
    da, db = restrict(da, ka), restrict(db, keep)
    for m, d in ((A, da), (B, db)):
        rec.check(set(m.keys()) == set(d), 'construction keeps exactly the terms in keep', got=list(m.keys()), expected=list(d))
    want = {}
    for k1, v1 in da.items():
        for k2, v2 in db.items():
            k = k1 * k2
            if k in keep or (ka is not None and k in ka):
                want[k] = want.get(k, 0) + (v1 @ v2 if fmt != 'scalar' else v1 * v2)
    if not (len(da) and len(db)):
        rec.skip('nothing kept')
    C = A @ B if fmt != 'scalar' else A * B
    rec.event('keep product')
    for k in set(want) | set(C.keys()):
        rec.check(k in want, 'product contains a term that is not kept', key=k)
        rec.close(ev.dense(C[k]), want[k], 'coefficient of kept term', key=k)
    if rng.random() < 0.5:
        s = gen.sym(gen.choice(rng, gen.PARAMS))
        C = B * s if rng.random() < 0.5 else s * B
        w2 = {k * s: v for k, v in db.items() if k * s in keep}
        rec.check({k for k, v in C.items()} == set(w2), 'multiplication by symbol keeps exactly the listed terms',
                  got=list(C.keys()), expected=list(w2))
        for k in w2:
            rec.close(ev.dense(C[k]), w2[k], 'coefficient of kept term')
    rec.sig('keep', fmt, tuple(map(str, keep)), tuple(map(str, want)))


def rejects(rng, rec):
    """Operands without a common meaning are rejected, not silently combined."""
    import qsymm
    fmt = gen.choice(rng, ['scalar', 'dense', 'csr'])
    shape = () if fmt == 'scalar' else (2, 2)
    m1, m2 = gen.choice(rng, [(('k_x', 'k_y'), ('k_x',)), (('k_x', 'k_y'), ('k_y', 'k_x')), (('p', 'q'), ('k_x', 'k_y'))])
    A = gen.model(rng, fmt, shape, m1)
    B = gen.model(rng, fmt, shape, m2)
    rec.note(A=str(A), B=str(B), m1=m1, m2=m2)
    rec.raises(ValueError, lambda: A + B, 'sum of models with different momenta')
    if fmt == 'scalar':
        rec.raises(ValueError, lambda: A * B, 'product of models with different momenta')
    else:
        rec.raises(ValueError, lambda: A @ B, 'product of models with different momenta')
        C = gen.model(rng, fmt, (3, 3), m1)
        rec.raises(Exception, lambda: A + C, 'sum of models with different shapes')
        rec.raises(Exception, lambda: A @ C, 'product of models with incompatible shapes')
        if fmt == 'dense':
            bad = rng.normal(size=gen.choice(rng, [(2,), (1, 2), (2, 1), (1, 1), (3, 3), (2, 2, 2), (1,)]))
        else:
            bad = sp.csr_matrix(rng.normal(size=(3, 3)))
        A = A if len(A) else A + np.eye(2)
        rec.raises(Exception, lambda: A + bad, 'sum of a model with a constant of another shape')
        rec.raises(Exception, lambda: A - bad, 'difference of a model and a constant of another shape')
        if fmt == 'dense':
            rec.raises(Exception, lambda: bad + A, 'sum of a constant of another shape with a model')
        rec.raises(Exception, lambda: A + 1., 'sum of a matrix valued model with a number')
        rec.raises(Exception, lambda: 1. + A, 'sum of a number with a matrix valued model')
    rec.sig('rejects', fmt, m1, m2)


def monitored(rng, rec):
    """Realistic sessions with every arithmetic call of the library checked online."""
    mon = Monitors(rec, int(rng.integers(1 << 20)))
    mon.every = int(rng.integers(1, 8))
    with mon.model_algebra():
        name = pipelines.run(rng, rec)
    rec.check(True, 'session finished')
    rec.sig('session', name, mon.n // 10)


FAMILIES = {
    'programs dense': (make('dense'), 500, 9000),
    'programs scalar': (make('scalar'), 260, 5000),
    'programs csr': (make('csr'), 200, 4000),
    'programs csc': (make('csc'), 40, 800),
    'programs linear operator': (make('lo'), 120, 2000),
    'programs bloch dense': (make('dense', True), 200, 5000),
    'programs bloch scalar': (make('scalar', True), 100, 2000),
    'programs bloch csr': (make('csr', True), 80, 2000),
    'keep': (keep_products, 200, 4000),
    'rejects': (rejects, 60, 600),
    'monitored sessions': (monitored, 24, 300),
}
