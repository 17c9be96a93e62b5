"""P03: substitution, momentum transformation and symbolic transformation of
keys equal evaluation of the original model elsewhere."""
import numpy as np
import sympy

from .. import ev, gen

RULE = ('states are (operation, value format, momenta, kinds of replacements, number of terms); the transformed model is '
        'compared at two random points with the original one evaluated at the transformed point')
REQUIRED_EVENTS = ('subs rename', 'subs eliminate', 'subs number', 'subs simultaneous', 'rotate sympy', 'rotate float',
                   'bloch subs', 'transform')
ASSUMPTIONS = ['undefined functions of a momentum are not evaluated at numbers (they have no numerical value)',
               'replacements that make two momenta coincide are not generated']
TOL = 2e-7

FRESH = ['p_1', 'q_x', 'phi', 'x_0', 'lambda_1']


def number(rng):
    k = int(rng.integers(7))
    return [int(rng.integers(-3, 4)), float(round(rng.normal(), 4)), complex(round(rng.normal(), 3), round(rng.normal(), 3)),
            sympy.Rational(int(rng.integers(-5, 6)), 3), sympy.sqrt(2), sympy.Integer(0), np.float64(rng.normal())][k]


def check_invariants(rec, m, new, momenta, op):
    rec.check(type(new) is type(m), op + ': type of the result', got=type(new))
    rec.check(tuple(map(str, new.momenta)) == tuple(map(str, momenta)), op + ': momenta of the result',
              got=new.momenta, expected=momenta)
    if len(new):
        rec.check(tuple(new.shape) == tuple(m.shape), op + ': shape of the result', got=new.shape)
        rec.check(new.format is m.format, op + ': format of the result', got=new.format)


def compare(rec, m, new, pts, env, msg):
    for p in pts:
        q = env(p)
        want = ev.mev(m, q)
        s = max(1., ev.mev_scale(m, q))
        got = ev.mev(new, p) if new.shape is not None else np.zeros(m.shape)
        rec.close(got, want, msg, tol=TOL, scale=s)


def pick_model(rng, rec, bloch, functions):
    import qsymm
    momenta = gen.momenta_set(rng, dims=(1, 2, 3))
    fmt = gen.choice(rng, ['dense', 'dense', 'scalar', 'csr'])
    cls = qsymm.BlochModel if bloch else qsymm.Model
    while True:
        m = gen.model(rng, fmt, gen.shape_for(rng, fmt, nmax=3), momenta, kind=gen.choice(rng, ['mixed', 'poly', 'bloch']),
                      cls=cls)
        if functions or not any(k.atoms(sympy.core.function.AppliedUndef) for k in m.keys() if not bloch):
            return momenta, fmt, m


def replacement(rng, name, momenta, bloch, used):
    """-> (kind, new) for symbol `name`; new avoids the symbols in used."""
    ismom = name in momenta
    kinds = ['number', 'number', 'rename', 'expr']
    if ismom:
        kinds += ['linear', 'linear', 'rename', 'eliminate']
    kind = gen.choice(rng, kinds)
    if kind == 'number':
        v = number(rng)
        return kind, v
    fresh = [f for f in FRESH if f not in used]
    par = [p for p in gen.PARAMS if p not in used and p != name]
    if kind == 'rename':
        return kind, sympy.Symbol(gen.choice(rng, fresh))
    if kind == 'expr' and not ismom:
        x, y = sympy.Symbol(gen.choice(rng, par)), sympy.Symbol(gen.choice(rng, fresh))
        return kind, gen.choice(rng, [x + 2 * y, 3 * x, x * y, x**2 - y, -x + 1, sympy.I * x, x + sympy.Rational(1, 2)])
    if kind == 'expr' or kind == 'eliminate':
        # expression of parameters: the momentum disappears
        x = sympy.Symbol(gen.choice(rng, par))
        return 'eliminate', gen.choice(rng, [2 * x, x + 1, x * sympy.Symbol(gen.choice(rng, fresh)) if not bloch else -x, x / 2])
    # linear combination of momenta (keeps the momentum)
    c = [sympy.Integer(int(rng.integers(-2, 3))) for _ in momenta]
    i = momenta.index(name)
    if c[i] == 0:
        c[i] = sympy.Integer(1)
    new = sum(a * sympy.Symbol(k) for a, k in zip(c, momenta))
    if rng.random() < 0.4:
        new = new + gen.choice(rng, [sympy.Integer(1), sympy.Symbol(par[0]), sympy.Rational(1, 2)])
    if new == sympy.Symbol(name):
        new = 2 * new
    return 'linear', new


def expected_momenta(momenta, pairs, simultaneous):
    cur = list(momenta)
    for old, new in pairs:
        names = list(momenta) if simultaneous else list(cur)
        new = sympy.sympify(new)
        free = {s.name for s in new.free_symbols}
        if isinstance(new, sympy.Symbol):
            cur = [new.name if n == old else c for n, c in zip(names, cur)]
        elif not free & {n for n in names if n is not None}:
            cur = [None if n == old else c for n, c in zip(names, cur)]
    return [c for c in cur if c is not None]


def substitution(rng, rec, bloch=False):
    momenta, fmt, m = pick_model(rng, rec, bloch, functions=False)
    names = sorted({s.name for k in m.keys() for s in (k[1] if bloch else k).free_symbols} - {'e'} | set(momenta))
    n = int(rng.integers(1, min(3, len(names)) + 1))
    olds = [names[i] for i in rng.permutation(len(names))[:n]]
    style = gen.choice(rng, ['pair', 'dict', 'list', 'simultaneous', 'chain'])
    if style == 'pair':
        olds = olds[:1]
    pairs, kinds = [], []
    used = set(olds)
    if style == 'simultaneous' and len(momenta) > 1 and rng.random() < 0.6:
        # exchange of two symbols
        a, b = momenta[0], momenta[1]
        pairs = [(a, sympy.Symbol(b)), (b, sympy.Symbol(a))]
        kinds = ['swap']
    else:
        for o in olds:
            kind, new = replacement(rng, o, momenta, bloch, used if style != 'chain' else used - set(olds))
            if kind == 'linear' and len(olds) > 1 and style not in ('simultaneous',):
                new = gen.choice(rng, [sympy.Integer(2), sympy.Integer(-1)]) * sympy.Symbol(o)
            if style == 'chain' and kind in ('rename', 'eliminate'):
                kind, new = 'number', number(rng)
            if bloch and o in momenta and isinstance(new, (complex, np.complex128)):
                new = float(round(rng.normal(), 3))
            pairs.append((o, new))
            kinds.append(kind)
            # a renamed momentum must not coincide with a parameter
            used |= {x.name for x in sympy.sympify(new).free_symbols & set(map(sympy.Symbol, FRESH))}
    simultaneous = style == 'simultaneous'
    as_str = rng.random() < 0.25
    given = [(o if as_str else sympy.Symbol(o), x) for o, x in pairs]
    if style == 'pair':
        args = given[0]
    elif style in ('dict', 'simultaneous'):
        args = (dict(given),)
    else:
        args = (list(given),)
    rec.note(model=str(m), momenta=momenta, pairs=pairs, style=style, strings=as_str)
    if rng.random() < 0.1:
        # results must not depend on identity of sympy's cached objects
        sympy.core.cache.clear_cache()
        args = ([(o if as_str else sympy.Symbol(o), x) for o, x in pairs],)
        if not simultaneous and style == 'dict':
            args = (dict(args[0]),)
    before = ev.digest(m)
    new = m.subs(*args, **(dict(simultaneous=True) if simultaneous else {}))
    rec.check(ev.digest(m) == before, 'subs changed the original model')

    def env(p):
        if simultaneous:
            return p.with_values({o: ev.kev(sympy.sympify(x), p) for o, x in pairs})
        for o, x in reversed(pairs):
            p = p.with_values({o: ev.kev(sympy.sympify(x), p)})
        return p
    for k in set(kinds):
        rec.event('subs ' + k)
    if simultaneous:
        rec.event('subs simultaneous')
    if bloch:
        rec.event('bloch subs')
    pts = ev.points(int(rng.integers(1 << 30)), 2)
    compare(rec, m, new, pts, env, 'subs: value at every point')
    check_invariants(rec, m, new, expected_momenta(momenta, pairs, simultaneous), 'subs')
    # momenta that are not there any more must not appear in the keys
    gone = [o for (o, x) in pairs if o in momenta and o not in map(str, new.momenta)]
    if style not in ('chain',) and not simultaneous:
        for k in new.keys():
            s = {str(x) for x in (k[1] if bloch else k).free_symbols}
            rec.check(not s & set(gone), 'substituted momentum still appears', key=k)
    rec.sig('subs', bloch, fmt, momenta, style, tuple(sorted(kinds)), len(m), len(new))


def bloch_substitution(rng, rec):
    substitution(rng, rec, True)


def matrix(rng, d):
    kind = gen.choice(rng, ['int', 'float', 'orthogonal', 'sympy', 'general', 'singular'])
    if kind == 'int':
        return kind, rng.integers(-2, 3, size=(d, d))
    if kind == 'orthogonal':
        return 'float', gen.orthogonal(rng, d)
    if kind == 'float':
        return kind, np.round(rng.normal(size=(d, d)), 2)
    if kind == 'general':
        return 'float', rng.normal(size=(d, d))
    if kind == 'singular':
        R = rng.integers(-2, 3, size=(d, d))
        R[0] = 0
        return 'int', R
    ents = [sympy.Integer(0), sympy.Integer(1), sympy.Integer(-1), sympy.Rational(1, 2), -sympy.sqrt(3) / 2, sympy.sqrt(2)]
    return kind, sympy.ImmutableMatrix(d, d, lambda i, j: gen.choice(rng, ents))


def rotation(rng, rec, bloch=False):
    import tinyarray as ta
    momenta, fmt, m = pick_model(rng, rec, bloch, functions=True)
    kind, R = matrix(rng, len(momenta))
    Rf = ev.Rfloat(R)
    if kind == 'int' and rng.random() < 0.5:
        R = ta.array(R, int)
    elif kind == 'float' and rng.random() < 0.5:
        R = ta.array(R, float)
    rec.note(model=str(m), momenta=momenta, R=R)
    before = ev.digest(m)
    new = m.rotate_momenta(R)
    rec.check(ev.digest(m) == before, 'rotate_momenta changed the original model')
    rec.event('rotate ' + kind)
    pts = ev.points(int(rng.integers(1 << 30)), 2)
    compare(rec, m, new, pts, lambda p: ev.rotated(p, momenta, Rf), 'rotate_momenta: H(R k)')
    check_invariants(rec, m, new, momenta, 'rotate_momenta')
    rec.sig('rotate', bloch, fmt, momenta, kind, len(m), len(new))


def bloch_rotation(rng, rec):
    rotation(rng, rec, True)


def transform(rng, rec):
    """transform_symbolic acts linearly and term by term."""
    momenta, fmt, m = pick_model(rng, rec, False, functions=False)
    k = sympy.Symbol(gen.choice(rng, list(momenta)))
    a = sympy.Symbol('a')
    u = gen.choice(rng, ['diff', 'diff2', 'diffpar', 'square', 'shift', 'number', 'zero', 'expand'])
    f = {'diff': lambda x: sympy.diff(x, k), 'diff2': lambda x: sympy.diff(x, k, 2), 'diffpar': lambda x: sympy.diff(x, a),
         'square': lambda x: x**2, 'shift': lambda x: (x * (k + 2 * a) * (1 - sympy.I)).expand(),
         'number': lambda x: sympy.Rational(3, 7) * x, 'zero': lambda x: sympy.Integer(0) * x,
         'expand': lambda x: x * (1 + k) ** 2}[u]
    rec.note(model=str(m), momenta=momenta, func=u, k=k)
    before = ev.digest(m)
    terms = [(f(key), ev.dense(v)) for key, v in m.items()]
    new = m.transform_symbolic(f)
    rec.check(ev.digest(m) == before, 'transform_symbolic changed the original model')
    rec.event('transform')
    for p in ev.points(int(rng.integers(1 << 30)), 2):
        want = sum((ev.kev(x, p) * v for x, v in terms), np.zeros(m.shape, complex))
        s = max([1.] + [abs(ev.kev(x, p)) * (np.max(np.abs(v)) if v.size else 0) for x, v in terms])
        rec.close(ev.mev(new, p), want, 'transform_symbolic acts term by term', tol=TOL, scale=s)
    check_invariants(rec, m, new, momenta, 'transform_symbolic')
    # linearity with respect to the model
    m2 = gen.model(rng, fmt, m.shape, momenta, kind='poly')
    lhs, a1, a2 = (m + m2).transform_symbolic(f), new, m2.transform_symbolic(f)
    for p in ev.points(int(rng.integers(1 << 30)), 1):
        if u == 'square':
            break
        rec.close(ev.mev(lhs, p), ev.mev(a1, p) + ev.mev(a2, p), 'transform_symbolic is linear', tol=TOL,
                  scale=1 + ev.mev_scale(a1, p) + ev.mev_scale(a2, p))
    rec.sig('transform', fmt, momenta, u, len(m), len(new))


def operators(rng, rec):
    """Linear operator values and empty models."""
    import qsymm
    momenta = gen.momenta_set(rng, dims=(1, 2, 3))
    cls = gen.choice(rng, [qsymm.Model, qsymm.BlochModel])
    fmt, shape = gen.choice(rng, [(np.ndarray, (2, 2)), (np.complex128, ())])
    m = cls({}, momenta=momenta, shape=shape, format=fmt)
    kind, R = matrix(rng, len(momenta))
    rec.note(cls=cls.__name__, momenta=momenta, R=R)
    k = sympy.Symbol(momenta[-1])
    new = m.rotate_momenta(R)
    rec.check(len(new) == 0 and tuple(map(str, new.momenta)) == momenta, 'rotation of empty model', got=new.momenta)
    rec.check(new.shape == shape and new.format is fmt, 'shape and format of rotated empty model', got=(new.shape, new.format))
    new = m.subs(k, sympy.Symbol('q'))
    rec.check(len(new) == 0 and tuple(map(str, new.momenta)) == momenta[:-1] + ('q',), 'renaming in empty model', got=new.momenta)
    new = m.subs({k: 1})
    rec.check(len(new) == 0 and tuple(map(str, new.momenta)) == momenta[:-1], 'elimination in empty model', got=new.momenta)
    rec.event('empty')
    rec.sig('empty', cls.__name__, momenta, kind)


FAMILIES = {
    'subs': (substitution, 1200, 9000),
    'bloch subs': (bloch_substitution, 500, 4000),
    'rotate': (rotation, 600, 5000),
    'bloch rotate': (bloch_rotation, 400, 4000),
    'transform': (transform, 400, 4000),
    'empty': (operators, 40, 300),
}
