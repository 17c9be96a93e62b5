"""P02: building a Model keeps the value of the input expression.

Inputs are generated together with their meaning: a random expression tree is
rendered as a string (or sympy object, or dictionary) and evaluated directly
with numpy, without sympy or qsymm.
"""
import cmath
import math

import numpy as np
import scipy.sparse as sp
import sympy

from .. import ev, gen

RULE = ('states are (input kind, momenta, structural fingerprint of the expression tree); the built model is compared '
        'at two random points with the direct evaluation of the tree that was rendered')
REQUIRED_EVENTS = ('string input', 'sympy input', 'dict input', 'bloch from string', 'keep', 'rejected')
ASSUMPTIONS = ['entries below 1e-8 of the expression may be dropped by normalisation (documented)',
               'strings use the documented grammar: sympy syntax, sigma_*, kron, eye/identity, list matrices, e, exp, sin, cos']
TOL = 5e-8

PAULI = {'0': np.eye(2), 'x': np.array([[0, 1], [1, 0]]), 'y': np.array([[0, -1j], [1j, 0]]), 'z': np.diag([1, -1])}


# -- expression trees: (string, function of a point -> complex or matrix) ----
def num_str(rng):
    u = rng.random()
    if u < 0.3:
        n = int(rng.integers(1, 6))
        return str(n), lambda p: n
    if u < 0.5:
        a, b = int(rng.integers(1, 6)), int(rng.integers(2, 7))
        return '%d/%d' % (a, b), lambda p: a / b
    if u < 0.65:
        x = round(float(rng.uniform(0.1, 3)), 3)
        if rng.random() < .3:
            x = float(gen.choice(rng, [2e-6, 7e-6, 3e-5, 1e-3, 4e3]))
        return repr(x), lambda p: x
    if u < 0.75:
        return 'I', lambda p: 1j
    if u < 0.85:
        n = int(rng.integers(2, 6))
        return 'sqrt(%d)' % n, lambda p: math.sqrt(n)
    if u < 0.9:
        return '(1 + 2*I)', lambda p: 1 + 2j
    n = int(rng.integers(1, 5))
    return '(-%d)' % n, lambda p: -n


def scalar(rng, names, momenta, depth, trig, feats):
    u = rng.random()
    if depth <= 0 or u < 0.3:
        n = gen.choice(rng, names)
        if rng.random() < 0.3:
            k = int(rng.integers(2, 4))
            op = gen.choice(rng, ['**', '^'])
            feats.add(op)
            return '%s%s%d' % (n, op, k), lambda p: p[n] ** k
        return n, lambda p: p[n]
    if u < 0.42:
        return num_str(rng)
    if u < 0.62:
        s1, f1 = scalar(rng, names, momenta, depth - 1, trig, feats)
        s2, f2 = scalar(rng, names, momenta, depth - 1, trig, feats)
        op = gen.choice(rng, ['+', '-'])
        feats.add('sum')
        return '(%s %s %s)' % (s1, op, s2), (lambda p: f1(p) + f2(p)) if op == '+' else (lambda p: f1(p) - f2(p))
    if u < 0.85 or not trig:
        s1, f1 = scalar(rng, names, momenta, depth - 1, trig, feats)
        s2, f2 = scalar(rng, names, momenta, depth - 1, trig, feats)
        feats.add('prod')
        return '%s*%s' % (s1, s2), lambda p: f1(p) * f2(p)
    # periodic function of momenta (or of a parameter)
    arg = momenta if momenta and rng.random() < 0.85 else names
    terms, funs = [], []
    for i in range(int(rng.integers(1, 3))):
        n = gen.choice(rng, arg)
        # not two negative ones: sympy itself recurses forever on cos(-x - y) of noncommutative symbols
        c, cs = gen.choice(rng, [(1, '%s'), (2, '2*%s'), (.5, '%s/2'), (1.5, '3*%s/2')] + [(-1, '-%s')] * (i == 0))
        terms.append(cs % n)
        funs.append((c, n))
    a = ' + '.join(terms)

    def fa(p):
        return sum(c * p[n] for c, n in funs)
    k = gen.choice(rng, ['sin', 'cos', 'exp', 'e'])
    feats.add(k)
    if k == 'sin':
        return 'sin(%s)' % a, lambda p: cmath.sin(fa(p))
    if k == 'cos':
        return 'cos(%s)' % a, lambda p: cmath.cos(fa(p))
    if k == 'exp':
        return 'exp(I*(%s))' % a, lambda p: cmath.exp(1j * fa(p))
    return 'e**(I*(%s))' % a, lambda p: cmath.exp(1j * fa(p))


def matrix(rng, n, feats):
    """constant matrix as string"""
    u = rng.random()
    if n == 2 and u < 0.5:
        c = gen.choice(rng, '0xyz')
        return 'sigma_' + c, PAULI[c]
    if n == 4 and u < 0.6:
        a, b = gen.choice(rng, '0xyz'), gen.choice(rng, '0xyz')
        feats.add('kron')
        return 'kron(sigma_%s, sigma_%s)' % (a, b), np.kron(PAULI[a], PAULI[b])
    if u < 0.7:
        feats.add('eye')
        return '%s(%d)' % (gen.choice(rng, ['eye', 'identity']), n), np.eye(n)
    a = rng.integers(-2, 3, size=(n, n)) + 1j * rng.integers(-1, 2, size=(n, n))
    s = '[' + ', '.join('[' + ', '.join('%d%+d*I' % (x.real, x.imag) for x in r) + ']' for r in a) + ']'
    feats.add('list')
    return 'Matrix(%s)' % s if rng.random() < 0.3 else s, a


def matrix_expr(rng, names, momenta, n, depth, trig, feats):
    terms, funs = [], []
    for _ in range(int(rng.integers(1, 5))):
        s, f = scalar(rng, names, momenta, depth, trig, feats)
        m, mv = matrix(rng, n, feats)
        if m.startswith('['):
            m = 'Matrix(%s)' % m
        terms.append('(%s) * %s' % (s, m) if rng.random() < 0.5 else '%s * (%s)' % (m, s))
        funs.append((f, mv))
    return ' + '.join(terms), lambda p: sum(f(p) * mv for f, mv in funs)


def setup(rng, trig=None):
    momenta = gen.momenta_set(rng)
    names = list(momenta) + list(rng.permutation(gen.PARAMS)[:3])
    pts = ev.points(int(rng.integers(1 << 30)), 2)
    return momenta, names, pts


def normal_form(rec, m, bloch=False):
    """Keys are products of symbols without numerical factors, no zero entries."""
    for k, v in m.items():
        expr = k[1] if bloch else k
        for f in sympy.Mul.make_args(expr):
            rec.check(f == 1 or not f.is_number, 'key contains a numerical factor', key=k)
        rec.check(not isinstance(expr, sympy.Add), 'key is a sum', key=k)
        d = ev.dense(v)
        rec.check(np.max(np.abs(d)) > 0 if d.size else True, 'entry that vanishes is kept', key=k)


def compare(rec, m, f, pts, msg, shape):
    for p in pts:
        want = np.asarray(f(p), dtype=complex) * np.ones(shape)
        if m.shape is None:
            rec.close(want, np.zeros(shape), msg + ': empty model for nonzero expression', tol=TOL)
            continue
        rec.check(tuple(m.shape) == tuple(shape), msg + ': shape', got=m.shape, expected=shape)
        rec.close(ev.mev(m, p), want, msg, tol=TOL, scale=ev.mev_scale(m, p))


def from_string(rng, rec):
    import qsymm
    momenta, names, pts = setup(rng)
    feats = set()
    n = int(rng.choice([1, 2, 2, 3, 4]))
    trig = rng.random() < 0.5
    if n == 1:
        s, f = scalar(rng, names, momenta, 3, trig, feats)
        shape = (1, 1)
    elif rng.random() < 0.7:
        s, f = matrix_expr(rng, names, momenta, n, 2, trig, feats)
        shape = (n, n)
    else:
        ents = [[scalar(rng, names, momenta, 2, trig, feats) for _ in range(n)] for _ in range(n)]
        s = '[' + ', '.join('[' + ', '.join(x[0] for x in r) + ']' for r in ents) + ']'
        f = lambda p: np.array([[x[1](p) for x in r] for r in ents])
        shape = (n, n)
        feats.add('literal')
    rec.note(expr=s, momenta=momenta)
    kind = gen.choice(rng, ['string', 'string', 'sympy', 'locals'])
    if kind == 'string':
        m = qsymm.Model(s, momenta=momenta)
        rec.event('string input')
    elif kind == 'sympy':
        expr = qsymm.sympify(s)
        m = qsymm.Model(expr, momenta=momenta)
        rec.event('sympy input')
    else:
        # replace some parameter by a local definition
        par = [x for x in names if x not in momenta]
        s2, f2 = scalar(rng, [x for x in names if x != par[0]], momenta, 1, False, set())
        rec.note(locals={par[0]: s2})
        m = qsymm.Model(s, momenta=momenta, locals={par[0]: s2})
        g = f
        f = lambda p: g(_Override(p, par[0], f2(p)))
        rec.event('locals input')
    compare(rec, m, f, pts, 'Model(%s) has the value of the expression' % kind, shape)
    rec.check(tuple(map(str, m.momenta)) == tuple(momenta), 'momenta of the model', got=m.momenta)
    normal_form(rec, m)
    rec.check(len({sympy.srepr(k) for k in m.keys()}) == len(m), 'keys are unique')
    rec.sig('string', kind, n, momenta, tuple(sorted(feats)), len(m))


class _Override:
    def __init__(self, p, name, val):
        self.p, self.name, self.val = p, name, val

    def __getitem__(self, n):
        return self.val if n == self.name else self.p[n]


def key_term(rng, momenta, pts):
    """A symbolic factor with its spelling and its value."""
    k = gen.model_key(rng, momenta)
    return k


def from_dict(rng, rec):
    """{symbol: value}: normalize on and off, several spellings of one symbol, sums and numbers."""
    import qsymm
    momenta, names, pts = setup(rng)
    fmt = gen.choice(rng, ['scalar', 'dense', 'dense', 'csr', 'lo'])
    shape = gen.shape_for(rng, fmt, nmax=3)
    normalize = bool(rng.random() < 0.5) and fmt != 'lo'
    d, terms = {}, []
    ks = gen.keys(rng, int(rng.integers(1, 5)), momenta)
    for k in ks:
        spell = [k]
        if rng.random() < 0.3:
            spell.append(str(k))
        if rng.random() < 0.15 and momenta:
            spell.append(('e**(I*%s)*' % momenta[0] if True else '') + '(%s)' % k)
        for s in spell[-2:] if rng.random() < 0.4 else spell[-1:]:
            if normalize and rng.random() < 0.6 and not isinstance(s, str):
                c = gen.choice(rng, [sympy.Integer(2), sympy.I, sympy.Rational(1, 3), -sympy.sqrt(2), sympy.Integer(-1)])
                s = s * c
                if rng.random() < 0.4:
                    s = s + gen.monomial(rng, momenta)
            if s not in d:
                d[s] = gen.value(rng, fmt, shape)
    for s, v in d.items():
        expr = sympy.sympify(s, locals={'e': gen.e_sym()}) if isinstance(s, str) else s
        terms.append((expr, ev.dense(v)))
    rec.note(d={str(k): ev.dense(v).tolist() for k, v in d.items()}, momenta=momenta, normalize=normalize, fmt=fmt)
    m = qsymm.Model(d, momenta=momenta, normalize=normalize)
    rec.event('dict input')
    rec.check(m.shape == shape, 'shape', got=m.shape, expected=shape)
    for p in pts:
        want = sum(ev.kev(k, p) * v for k, v in terms)
        rec.close(ev.mev(m, p), want, 'Model(dict) has the value of the terms', tol=TOL,
                  scale=max(1, sum(abs(ev.kev(k, p)) * (np.max(np.abs(v)) if v.size else 0) for k, v in terms)))
    if normalize:
        normal_form(rec, m)
    rec.sig('dict', fmt, shape, normalize, len(d), len(m))


def bloch(rng, rec):
    import qsymm
    momenta = gen.momenta_set(rng, dims=(1, 2, 3))
    names = list(momenta) + list(rng.permutation(gen.PARAMS)[:3])
    pts = ev.points(int(rng.integers(1 << 30)), 2)
    pars = [x for x in names if x not in momenta]
    kind = gen.choice(rng, ['string', 'dict', 'dict num', 'coeff'])
    n = int(rng.integers(1, 4))
    if kind == 'string':
        terms, funs = [], []
        for _ in range(int(rng.integers(1, 4))):
            s, f = scalar(rng, pars, (), 1, False, set())
            t, g = None, None
            while t is None or not any(x in t for x in ('sin', 'cos', 'exp', 'e**')):
                t, g = scalar(rng, momenta, momenta, 0, True, set()) if False else _periodic(rng, momenta)
            M, mv = matrix(rng, n, set())
            if M.startswith('['):
                M = 'Matrix(%s)' % M
            terms.append('(%s) * %s * %s' % (s, t, M))
            funs.append((f, g, mv))
        s = ' + '.join(terms)
        rec.note(expr=s, momenta=momenta)
        m = qsymm.BlochModel(s, momenta=momenta)
        f = lambda p: sum(f(p) * g(p) * mv for f, g, mv in funs)
        rec.event('bloch from string')
        shape = (n, n)
        for p in pts:
            want = f(p) * np.ones(shape)
            if m.shape is None:
                rec.close(want, np.zeros(shape), 'empty BlochModel', tol=TOL)
                continue
            rec.close(ev.mev(m, p), want, 'BlochModel(string) has the value of the expression', tol=TOL, scale=max(1, ev.mev_scale(m, p)))
    else:
        fmt = gen.choice(rng, ['scalar', 'dense', 'csr'])
        shape = gen.shape_for(rng, fmt, nmax=3)
        d, terms = {}, []
        for _ in range(int(rng.integers(1, 5))):
            vec = [gen.hop_number(rng, ('int', 'half', 'rat', 'float', 'sqrt') if kind == 'coeff' else ('int', 'half', 'rat', 'sqrt'))
                   for _ in momenta]
            c = gen.monomial(rng, (), p_par=0.7)
            v = gen.value(rng, fmt, shape)
            if kind == 'coeff':
                from qsymm.model import BlochCoeff
                key = BlochCoeff(np.array(vec, dtype=float), c)
            else:
                key = c * gen.e_sym() ** (sympy.I * sum(a * sympy.Symbol(k) for a, k in zip(vec, momenta)))
                if kind == 'dict num' and rng.random() < 0.5:
                    z = gen.choice(rng, [sympy.Integer(2), sympy.I, sympy.Rational(-1, 2)])
                    key = key * z
                    v0 = ev.dense(v) * complex(z)
                else:
                    v0 = ev.dense(v)
            if kind == 'coeff':
                v0 = ev.dense(v)
            if key in d:
                continue
            d[key] = v
            terms.append((np.array(vec, dtype=float), c, v0))
        rec.note(d=d, momenta=momenta)
        m = qsymm.BlochModel(d, momenta=momenta)
        rec.event('bloch from dict')
        for p in pts:
            kv = p.vec(momenta)
            want = sum(cmath.exp(1j * float(vec @ kv)) * ev.kev(c, p) * v for vec, c, v in terms)
            if m.shape is None:
                rec.close(want, want * 0, 'empty BlochModel', tol=TOL)
                continue
            rec.close(ev.mev(m, p), want, 'BlochModel(dict) has the value of the terms', tol=TOL, scale=max(1, ev.mev_scale(m, p)))
        if kind != 'coeff' and m.shape is not None:
            normal_form(rec, m, bloch=True)
    rec.check(tuple(map(str, m.momenta)) == tuple(momenta), 'momenta of the BlochModel', got=m.momenta)
    for k in m.keys():
        rec.check(isinstance(k, tuple) and len(k) == 2 and len(k[0]) == len(momenta), 'key is a BlochCoeff', key=k)
    # distinct hoppings stay distinct, equal ones are merged
    ks = list(m.keys())
    for i in range(len(ks)):
        for j in range(i):
            if np.allclose(ks[i][0], ks[j][0], atol=1e-9) and ks[i][1] == ks[j][1]:
                rec.check(False, 'same Bloch coefficient stored twice', keys=(ks[i], ks[j]))
    rec.sig('bloch', kind, n, momenta, len(m))


def _periodic(rng, momenta):
    terms, funs = [], []
    for i in range(int(rng.integers(1, 3))):
        n = gen.choice(rng, momenta)
        # not two negative ones: sympy itself recurses forever on cos(-x - y) of noncommutative symbols
        c, cs = gen.choice(rng, [(1, '%s'), (2, '2*%s'), (.5, '%s/2'), (1.5, '3*%s/2')] + [(-1, '-%s')] * (i == 0))
        terms.append(cs % n)
        funs.append((c, n))
    a = ' + '.join(terms)

    def fa(p):
        return sum(c * p[n] for c, n in funs)
    k = gen.choice(rng, ['sin', 'cos', 'exp', 'e'])
    if k == 'sin':
        return 'sin(%s)' % a, lambda p: cmath.sin(fa(p))
    if k == 'cos':
        return 'cos(%s)' % a, lambda p: cmath.cos(fa(p))
    if k == 'exp':
        return 'exp(I*(%s))' % a, lambda p: cmath.exp(1j * fa(p))
    return 'e**(I*(%s))' % a, lambda p: cmath.exp(1j * fa(p))


def keep(rng, rec):
    """keep retains exactly the listed terms, spelled any way."""
    import qsymm
    momenta = gen.momenta_set(rng, dims=(1, 2, 3))
    ks = list({gen.monomial(rng, momenta, max_power=2) for _ in range(6)})
    kp = [k for k in ks if rng.random() < 0.5]
    if not kp:
        rec.skip('nothing kept')
    extra = [gen.monomial(rng, momenta, max_power=3) for _ in range(2)]
    d = {k: gen.value(rng, 'dense', (2, 2), 'complex') for k in ks}
    spelled = [str(k) if rng.random() < 0.4 else k for k in kp + extra]
    cls = qsymm.Model
    rec.note(d=list(d), keep=spelled)
    m = cls(d, momenta=momenta, keep=spelled)
    rec.event('keep')
    want = {k for k in d if k in kp or k in extra}
    rec.check(set(m.keys()) == want, 'keep retains exactly the terms listed', got=list(m.keys()), expected=want)
    for k in want:
        rec.close(m[k], d[k], 'kept value')
    rec.sig('keep', tuple(map(str, want)))


def rejected(rng, rec):
    """Input without a faithful representation raises."""
    import qsymm
    which = int(rng.integers(9))
    k = sympy.symbols('k_x k_y k_z')
    a = gen.array(rng, (2, 2), 'complex')
    x = gen.monomial(rng, ('k_x', 'k_y'), p_mom=1)
    y = sympy.Symbol('zeta')
    e, I = gen.e_sym(), sympy.I
    cases = [
        ('values of different shapes', lambda: qsymm.Model({x: a, y: np.eye(3)})),
        ('values of different formats', lambda: qsymm.Model({x: a, y: sp.csr_matrix(a)})),
        ('scalar and matrix values', lambda: qsymm.Model({x: a, y: 1.5})),
        ('polynomial momentum in BlochModel', lambda: qsymm.BlochModel({k[0] ** int(rng.integers(1, 4)) * y: a})),
        ('momentum outside of the exponent', lambda: qsymm.BlochModel({k[0] * e ** (I * k[1]): a})),
        ('real exponent in BlochModel', lambda: qsymm.BlochModel({e ** (k[0]): a})),
        ('symbolic hopping', lambda: qsymm.BlochModel({e ** (I * k[0] * y): a})),
        ('function of momentum in BlochModel', lambda: qsymm.BlochModel({sympy.Function('A')(k[0]): a})),
        ('integer momenta', lambda: qsymm.Model({x: a}, momenta=(0, 1))),
    ]
    name, f = cases[which]
    rec.note(case=name, x=x)
    rec.raises(Exception, f, name + ' must be rejected')
    # assignment of a value of wrong shape or format
    m = qsymm.Model({x: a})
    b = gen.choice(rng, [np.eye(3), sp.csr_matrix(a), 2.0, np.ones(2)])

    def assign():
        m[y] = b
    rec.raises(Exception, assign, 'assignment of a value with wrong shape or format must be rejected')
    rec.event('rejected')
    rec.sig('rejected', name, str(x))


FAMILIES = {
    'from string': (from_string, 400, 9000),
    'from dict': (from_dict, 500, 9000),
    'bloch': (bloch, 240, 5000),
    'keep': (keep, 120, 2000),
    'rejected': (rejected, 90, 900),
}
