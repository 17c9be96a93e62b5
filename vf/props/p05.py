"""P05: Model equality and term lookup agree with the mathematical content."""
import numpy as np
import scipy.sparse as sp
import scipy.sparse.linalg as sla
import sympy

from .. import ev, gen

RULE = ('states are (relation, class, value formats, shape, kinds of modifications, number of terms); verdicts of == and '
        'lookups are compared with a reference dictionary of dense coefficients')
REQUIRED_EVENTS = ('equal pair', 'unequal pair', 'lookup present', 'lookup absent', 'zero comparison', 'bloch pair', 'equal coefficients', 'unequal coefficients')
ASSUMPTIONS = ['differences between 1e-9 and 1e-4 of the largest entry of a term are not judged (tolerance of allclose)',
               'both models have the same shape and momenta']


def to_fmt(d, fmt):
    if fmt == 'scalar':
        return complex(d)
    if fmt == 'dense':
        return np.array(d)
    if fmt == 'csr':
        return sp.csr_matrix(d)
    if fmt == 'csc':
        return sp.csc_matrix(d)
    return sla.aslinearoperator(d)


def content(rng, cls, momenta, shape, n):
    """reference content: list of (key, dense coefficient)"""
    import qsymm
    from qsymm.model import BlochCoeff
    out = []
    if cls is qsymm.Model:
        for k in gen.keys(rng, n, momenta, gen.choice(rng, ['mixed', 'poly', 'bloch'])):
            out.append([k, gen.array(rng, shape, 'complex')])
    else:
        seen = []
        for _ in range(n):
            hop = np.array([float(gen.hop_number(rng, ('int', 'half', 'sqrt', 'float'))) for _ in momenta])
            c = gen.monomial(rng, (), p_par=0.6)
            if rng.random() < .5:
                # on the boundary of rounding
                hop = np.round(hop) + gen.choice(rng, [.5, .05, .25, .125, .0005, .00005, 5e-6])
            if any(np.allclose(hop, h, atol=1e-3) and c == cc for h, cc in seen):
                continue
            seen.append((hop, c))
            out.append([BlochCoeff(hop, c), gen.array(rng, shape, 'complex')])
    return out


def build(rng, cls, cont, fmt, momenta, shape):
    F = {'scalar': np.complex128, 'dense': np.ndarray, 'csr': sp.csr_matrix, 'csc': sp.csc_matrix, 'lo': sla.LinearOperator}[fmt]
    order = rng.permutation(len(cont))
    kw = dict(shape=shape, format=F) if not cont else {}
    return cls({cont[i][0]: to_fmt(cont[i][1], fmt) for i in order}, momenta=momenta, **kw)


def pair(rng, rec, bloch=False):
    import qsymm
    from qsymm.model import BlochCoeff
    cls = qsymm.BlochModel if bloch else qsymm.Model
    momenta = gen.momenta_set(rng, dims=(1, 2, 3))
    scalar = rng.random() < 0.25
    shape = () if scalar else gen.shape_for(rng, 'csr', nmax=3)
    fmts = ['scalar'] if scalar else ['dense', 'dense', 'csr', 'csr', 'csc', 'lo']
    f1, f2 = gen.choice(rng, fmts), gen.choice(rng, fmts)
    scale = 10. ** float(rng.uniform(-2, 4))
    A = [[k, v * scale] for k, v in content(rng, cls, momenta, shape, int(rng.integers(1, 5)))]
    B = [[k, v.copy()] for k, v in A]
    mods = []

    def same(k, l):
        if isinstance(k, tuple):
            return np.allclose(k[0], l[0], atol=1e-7) and k[1] == l[1]
        return k == l

    for _ in range(int(rng.integers(0, 3))):
        mod = gen.choice(rng, ['tiny', 'tiny', 'zero term', 'big', 'drop', 'extra', 'entry', 'sign', 'conj', 'hop'] + ['hop tiny'] * (6 if bloch else 1))
        i = int(rng.integers(len(B)))
        if mod == 'tiny':
            B[i][1] = B[i][1] * (1 + 1e-10 * rng.normal(size=shape))
        elif mod == 'zero term':
            new = [x for x in content(rng, cls, momenta, shape, 3) if not any(same(x[0], k) for k, _ in A + B)]
            if not new:
                continue
            B.append([new[0][0], np.zeros(shape, complex)])
        elif mod == 'big':
            B[i][1] = B[i][1] * 1.01
        elif mod == 'drop':
            if len(B) < 2:
                continue
            B.pop(i)
        elif mod == 'extra':
            new = [x for x in content(rng, cls, momenta, shape, 3) if not any(same(x[0], k) for k, _ in A + B)]
            if not new:
                continue
            B.append([new[0][0], new[0][1] * scale])
        elif mod == 'entry' and not scalar:
            idx = tuple(int(rng.integers(s)) for s in shape)
            B[i][1][idx] += 0.02 * scale
        elif mod == 'sign':
            B[i][1] = -B[i][1]
        elif mod == 'conj':
            B[i][1] = B[i][1].conj()
        elif mod == 'hop tiny' and bloch:
            h, c = B[i][0]
            B[i][0] = BlochCoeff(h + rng.uniform(-1, 1, h.shape) * 10. ** rng.uniform(-14, -9), c)
        elif mod == 'hop' and bloch:
            h, c = B[i][0]
            h = h.copy()
            h[0] += 1
            if any(np.allclose(h, x[0][0]) and c == x[0][1] for x in A + B):
                continue
            B[i][0] = BlochCoeff(h, c)
        else:
            continue
        mods.append(mod)

    def ref(x, y):
        # termwise comparison of the contents
        worst, sure = 0, True
        ks = list(x)
        pairs = [(v, next((w for l, w in y if same(k, l)), np.zeros(shape))) for k, v in x]
        pairs += [(np.zeros(shape), w) for l, w in y if not any(same(k, l) for k, _ in x)]
        verdict = True
        for v, w in pairs:
            s = max(np.max(np.abs(v)), np.max(np.abs(w)))
            d = np.max(np.abs(v - w))
            if d <= 1e-9 * s:
                continue
            if d >= 1e-4 * s + 1e-7:
                verdict = False
            else:
                return None
        return verdict

    want = ref(A, B)
    if any(1e-9 < np.max(np.abs(v), initial=0) < 1e-6 for _, v in A + B):
        rec.skip('value of the size of the tolerance')
    if want is None:
        rec.skip('difference within the tolerance window')
    a, b = build(rng, cls, A, f1, momenta, shape), build(rng, cls, B, f2, momenta, shape)
    rec.note(a=str(a), b=str(b), formats=(f1, f2), mods=mods)
    rec.event('equal pair' if want else 'unequal pair')
    if bloch:
        rec.event('bloch pair')
    d1, d2 = len(a), len(b)
    rec.check(bool(a == b) is want, 'a == b agrees with the termwise comparison', expected=want)
    rec.check(bool(b == a) is want, 'b == a agrees with the termwise comparison', expected=want)
    rec.check(bool(a != b) is (not want), '!= is the negation of ==')
    rec.check(bool(a.allclose(b)) is want, 'allclose agrees with ==')
    rec.check(bool(a == a.copy()) and bool(a.copy() == a) and bool(a == a), 'equality is reflexive and unaffected by copying')
    c = build(rng, cls, A, f1, momenta, shape)
    rec.check(bool(a == c) and bool(c == a), 'equality does not depend on the order of terms')
    rec.check((len(a), len(b)) == (d1, d2), 'comparison does not add terms')
    nz = any(np.max(np.abs(v)) > 1e-6 for _, v in B)
    rec.event('zero comparison')
    for z, name in ((0, '0'), ({}, '{}'), (cls({}, momenta=momenta, shape=shape, format=b.format), 'empty')):
        rec.check(bool(b == z) is (not nz), 'comparison with %s decides whether all terms vanish' % name, expected=not nz)
        rec.check(bool(b != z) is nz, 'negated comparison with %s' % name)
    e = cls({}, momenta=momenta, shape=shape, format=b.format)
    rec.check(bool(e == b) is (not nz), 'empty model == model')
    rec.check(e == {} and e == 0 and e == e.copy(), 'empty model equals zero')
    zero = build(rng, cls, [[k, v * 0] for k, v in A], f1, momenta, shape)
    rec.check(zero == {} and zero == 0 and zero == e and e == zero, 'model with vanishing terms equals zero')
    if f1 != 'lo':
        # difference in the sense of the algebra
        if f1 == f2:
            rec.check(bool((a - b) == 0) is (want and not mods) or want is True or (not want and not (a - b) == 0),
                      'a - b vanishes only for equal models')
    rec.sig('pair', bloch, f1, f2, shape, tuple(mods), len(A), want)


def bloch_pair(rng, rec):
    pair(rng, rec, True)


def tolerance(rng, rec):
    """Custom tolerances are relative to the largest entry of the term."""
    import qsymm
    cls = qsymm.Model
    shape = gen.choice(rng, [(), (2, 2), (3, 2)])
    fmt = 'scalar' if shape == () else gen.choice(rng, ['dense', 'csr'])
    v = gen.array(rng, shape, 'complex') * 10. ** float(rng.uniform(-3, 3))
    s = np.max(np.abs(v))
    if s < 1e-6:
        # models below the default tolerance equal zero
        rec.skip('tiny value')
    rtol, atol = 10. ** float(rng.uniform(-8, -1)), 10. ** float(rng.uniform(-8, 0))
    if rng.random() < 0.3:
        atol = 0.
    f = gen.choice(rng, [0.5, 0.9, 1.2, 3.])
    d = np.zeros(shape, complex)
    delta = f * (atol + rtol * s)
    if shape == ():
        d = delta * np.exp(1j * rng.uniform(0, 7))
    else:
        # on the smallest entry
        idx = np.unravel_index(np.argmin(np.abs(v)), shape)
        d[idx] = delta * np.exp(1j * rng.uniform(0, 7))
    w = v + d
    s2 = max(s, np.max(np.abs(w)))
    lim = atol + rtol * s2
    if 0.95 < np.max(np.abs(d)) / lim < 1.05:
        rec.skip('at the tolerance')
    want = bool(np.max(np.abs(d)) < lim)
    k = gen.monomial(rng, ('k_x', 'k_y'))
    a, b = cls({k: to_fmt(v, fmt)}), cls({k: to_fmt(w, fmt)})
    rec.note(v=v, w=w, rtol=rtol, atol=atol)
    for x, y in ((a, b), (b, a)):
        rec.check(bool(x.allclose(y, rtol=rtol, atol=atol)) is want, 'allclose is relative to the largest entry', expected=want)
    rec.event('tolerance')
    rec.sig('tol', fmt, shape, f, atol == 0)


def spellings(rng, k):
    """Texts and expressions with the same normal form as k (a product)."""
    out = [k, str(k)]
    fs = list(k.args) if isinstance(k, sympy.Mul) else [k]
    perm = [fs[i] for i in rng.permutation(len(fs))]
    out.append('*'.join('(%s)' % f for f in perm))
    expanded = []
    for f in perm:
        if isinstance(f, sympy.Pow) and f.exp.is_Integer and f.exp > 1:
            expanded += [str(f.base)] * int(f.exp)
        elif isinstance(f, sympy.Pow) and f.base == gen.e_sym() and isinstance(f.exp, sympy.Add):
            expanded += ['e**(%s)' % a for a in f.exp.args]
        else:
            expanded.append('(%s)' % f)
    out.append('*'.join(expanded))
    return out


def lookup(rng, rec):
    import qsymm
    cls = gen.choice(rng, [qsymm.Model, qsymm.BlochModel])
    momenta = gen.momenta_set(rng, dims=(1, 2, 3))
    fmt = gen.choice(rng, ['dense', 'scalar', 'csr', 'lo'])
    shape = gen.shape_for(rng, fmt, nmax=3)
    kind = 'bloch' if cls is qsymm.BlochModel else gen.choice(rng, ['mixed', 'poly', 'bloch'])
    ks = gen.keys(rng, 4, momenta, kind)
    ks = [k for k in ks if not k.atoms(sympy.core.function.AppliedUndef)]
    if len(ks) < 2:
        rec.skip('too few keys')
    vals = {k: gen.value(rng, fmt, shape, 'complex') for k in ks[:-1]}
    if cls is qsymm.BlochModel and fmt == 'lo':
        rec.skip('not supported')
    m = cls(dict(vals), momenta=momenta)
    rec.note(cls=cls.__name__, model=str(m), absent=ks[-1])
    before = len(m)
    for k, v in vals.items():
        if cls is qsymm.Model:
            names = spellings(rng, k)
        else:
            names = [k]
            for key in m.keys():
                if ev.bkev(key, P1, momenta) == ev.bkev(k, P1, momenta):
                    names.append(key)
        for name in names:
            got = m[name]
            rec.close(ev.dense(got), ev.dense(v), 'lookup of a term by its spelling', tol=1e-12, name=name)
            rec.event('lookup present')
    absent = [ks[-1]] + [gen.monomial(rng, () if cls is qsymm.BlochModel else momenta) * sympy.Symbol('absent_1')]
    if cls is qsymm.Model:
        absent += [str(absent[-1])]
    for a in absent:
        got = m[a]
        rec.event('lookup absent')
        rec.check(tuple(np.shape(got) if fmt == 'scalar' else got.shape) == tuple(shape), 'absent term has the right shape')
        rec.check(isinstance(got, m.format), 'absent term has the right format', got=type(got))
        rec.check(not np.any(ev.dense(got)), 'absent term is zero')
        # zeros returned by the lookup are not shared
        if fmt == 'dense':
            got[...] = 7
            rec.check(not np.any(m[a]), 'changing a returned zero changes the model')
    rec.check(len(m) == before and all(a not in m.data for a in absent), 'looking up an absent term adds it')
    vl = m.value_list(list(vals) + [absent[1]])
    for v, w in zip(vl, list(vals.values()) + [0 * ev.dense(got)]):
        rec.close(ev.dense(v), ev.dense(w), 'value_list', tol=1e-12)
    rec.sig('lookup', cls.__name__, fmt, shape, momenta, len(vals))


P1 = ev.Point(99)


def coefficients(rng, rec):
    """The keys of BlochModels: equality, hashes, products."""
    from qsymm.model import BlochCoeff
    dim = int(rng.integers(1, 4))
    hops = [np.zeros(dim), rng.integers(-2, 3, dim).astype(float), rng.normal(size=dim)]
    hops.append(hops[int(rng.integers(3))] * (1 + 1e-13) + 1e-13)
    coeffs = [sympy.Integer(1)] + [gen.monomial(rng, ()) for _ in range(2)]
    items = [(h, c) for h in hops for c in coeffs]
    i, j = int(rng.integers(len(items))), int(rng.integers(len(items)))
    (h1, c1), (h2, c2) = items[i], items[j]
    a, b = BlochCoeff(h1.copy(), c1), BlochCoeff(h2.copy(), c2)
    dev = np.max(np.abs(h1 - h2))
    if 1e-11 < dev < 1e-3:
        rec.skip('at the tolerance')
    want = bool(dev < 1e-10 and sympy.expand(c1 - c2) == 0)
    rec.note(a=a, b=b)
    rec.event('equal coefficients' if want else 'unequal coefficients')
    rec.check(bool(a == b) is want and bool(b == a) is want, 'equality of Bloch coefficients', expected=want)
    if want:
        rec.check(hash(a) == hash(b) and len({a, b}) == 1, 'equal Bloch coefficients are the same key')
    one = bool(np.max(np.abs(h1)) < 1e-10 and c1 == 1)
    if not 1e-11 < np.max(np.abs(h1)) < 1e-3:
        rec.check(bool(a == 1) is one, 'a Bloch coefficient equals 1 only if it is trivial', expected=one)
    p = a * b
    rec.check(np.allclose(p[0], h1 + h2) and sympy.expand(p[1] - c1 * c2) == 0, 'product of Bloch coefficients')
    rec.check(a.copy() == a and not np.shares_memory(a.copy()[0], a[0]), 'copy of a Bloch coefficient')
    rec.sig('coefficients', dim, i, j)


FAMILIES = {
    'pairs': (pair, 1500, 20000),
    'bloch pairs': (bloch_pair, 800, 12000),
    'tolerance': (tolerance, 500, 8000),
    'lookup': (lookup, 700, 9000),
    'coefficients': (coefficients, 300, 3000),
}
