"""P08: Applying a symmetry operator is the documented group action."""
import numpy as np
import scipy.sparse as sp
import sympy
import tinyarray as ta

from .. import ev, gen, pipelines
from ..mon import Monitors

RULE = ('states are (model class, value format, key kind, dimension, representation of R, conjugation, antisymmetry, '
        'presence of U); values of the transformed model are compared with plain numpy evaluation of the original '
        'at the transformed momenta')
REQUIRED_EVENTS = ('antiunitary antisymmetry', 'non-orthogonal R', 'sparse model', 'bloch model', 'product', 'invariant model',
                   'monitored PointGroupElement.apply')
ASSUMPTIONS = ['parameters and momenta are real', 'U is unitary']


def int_R(rng, d):
    u = rng.random()
    if d > 1 and u < 0.35:
        return gen.unimodular(rng, d, steps=3, size=1)
    P = np.eye(d, dtype=int)[rng.permutation(d)]
    return P * rng.choice([-1, 1], d)[:, None]


def exact_R(rng, d):
    M = sympy.eye(d).as_mutable()
    if d > 1:
        i, j = sorted(rng.choice(d, 2, replace=False).tolist())
        c, s = gen.choice(rng, [(sympy.Rational(-1, 2), sympy.sqrt(3) / 2), (sympy.Rational(3, 5), -sympy.Rational(4, 5)),
                                (sympy.sqrt(2) / 2, sympy.sqrt(2) / 2)])
        M[i, i], M[i, j], M[j, i], M[j, j] = c, -s, s, c
    if rng.random() < 0.4:
        M = M * sympy.Matrix(int_R(rng, d)) if d > 1 else -M
    return sympy.ImmutableMatrix(M)


def spatial(rng, d, rep):
    if rep == 'int':
        return int_R(rng, d)
    if rep == 'sympy':
        return exact_R(rng, d)
    if rep == 'general':
        while True:
            # an orthogonal matrix in another basis, e.g. that of the lattice vectors
            R, B = gen.orthogonal(rng, d), rng.normal(size=(d, d))
            if np.linalg.cond(B) < 4:
                return B @ R @ np.linalg.inv(B)
    return gen.orthogonal(rng, d)


def operator(rng, d, n, rep, unitary=None):
    import qsymm
    R = spatial(rng, d, rep)
    c, a = bool(rng.random() < .5), bool(rng.random() < .5)
    U = None if (rng.random() < .15 if unitary is None else not unitary) else gen.unitary(rng, n)
    if U is not None and rng.random() < .2:
        U = np.eye(n)[rng.permutation(n)] * gen.choice(rng, [1, 1j, -1])
    if d == 0:
        R = np.zeros((0, 0), int)
    form = R if not isinstance(R, np.ndarray) or rng.random() < .5 else ta.array(R, int if R.dtype.kind == 'i' else float)
    return qsymm.PointGroupElement(form, c, a, U)


def draw_model(rng, d, n=None, keys=None):
    import qsymm
    n = int(rng.integers(1, 4)) if n is None else n
    momenta = {1: ('k_x',), 2: ('k_x', 'k_y'), 3: ('k_x', 'k_y', 'k_z')}[d] if rng.random() < .6 else \
        {1: ('q',), 2: ('k_z', 'k_x'), 3: ('q_1', 'q_2', 'q_3')}[d]
    kind = keys or gen.choice(rng, ['poly', 'poly', 'poly', 'bloch', 'func', 'Bloch', 'Bloch'])
    fmt = gen.choice(rng, ['dense', 'dense', 'csr'])
    if kind == 'Bloch':
        m = gen.model(rng, fmt=fmt, shape=(n, n), momenta=momenta, cls=qsymm.BlochModel)
    else:
        m = gen.model(rng, fmt=fmt, shape=(n, n), momenta=momenta, kind='mixed' if kind == 'func' else kind)
    return m, kind, fmt


def pts(rng):
    return ev.points(int(rng.integers(1 << 30)), 2)


def same(rec, got, want_f, model, P, msg, tol=1e-7, **kw):
    for p in P:
        rec.close(ev.mev(got, p), want_f(p), msg, scale=max(10., 100 * ev.mev_scale(model, p)), tol=tol, **kw)


def reps(kind):
    if kind == 'poly':
        return ['int', 'float', 'sympy', 'general']
    if kind == 'Bloch':
        return ['int', 'float', 'sympy', 'general']
    return ['int', 'sympy']


def action(rng, rec):
    import qsymm
    d = int(rng.integers(1, 4))
    H, kind, fmt = draw_model(rng, d)
    n = H.shape[0]
    rep = gen.choice(rng, reps(kind))
    g = operator(rng, d, n, rep)
    dig = ev.digest(H), ev.digest(g)
    rec.note(H=repr(dict(H)), g=repr(g), momenta=H.momenta, kind=kind)
    r = g.apply(H)
    P = pts(rng)
    same(rec, r, lambda p: ev.apply_oracle(g, H, p), H, P, 'action of the operator')
    rec.check(type(r) is type(H) and tuple(r.momenta) == tuple(H.momenta) and r.shape == H.shape,
              'result has the class, momenta and shape of the model')
    rec.check((ev.digest(H), ev.digest(g)) == dig, 'operands unchanged')
    if g.conjugate and g.antisymmetry:
        rec.event('antiunitary antisymmetry')
    if not np.allclose(ev.Rfloat(g.R) @ ev.Rfloat(g.R).T, np.eye(d)):
        rec.event('non-orthogonal R')
    if fmt == 'csr':
        rec.event('sparse model')
    if kind == 'Bloch':
        rec.event('bloch model')
    # group action
    back = g.inv().apply(r)
    same(rec, back, lambda p: ev.mev(H, p), H, P, 'inverse undoes the operator', tol=1e-5)
    one = g.identity().apply(H)
    same(rec, one, lambda p: ev.mev(H, p), H, P, 'identity changes nothing')
    if kind in ('poly', 'Bloch'):
        rec.check(one == H and H == one, 'identity gives an equal model')
    rec.sig('action', d, kind, fmt, rep, n, g.conjugate, g.antisymmetry, g.U is None, len(H))


def composition(rng, rec):
    d = int(rng.integers(1, 4))
    H, kind, fmt = draw_model(rng, d)
    n = H.shape[0]
    rep = gen.choice(rng, reps(kind))
    rs = [rep, gen.choice(rng, ['int', rep])]
    has_U = bool(rng.random() < .85)
    g, h = operator(rng, d, n, rs[0], has_U), operator(rng, d, n, rs[1], has_U)
    rec.note(H=repr(dict(H)), g=repr(g), h=repr(h), momenta=H.momenta)
    P = pts(rng)
    a = (g * h).apply(H)
    b = g.apply(h.apply(H))

    def want(p):
        # evaluate h.apply(H) with plain numpy at the points seen by g
        R = np.linalg.inv(ev.Rfloat(g.R)) * (-1 if g.conjugate else 1)
        X = ev.apply_oracle(h, H, ev.rotated(p, H.momenta, R))
        X = X.conj() if g.conjugate else X
        X = -X if g.antisymmetry else X
        return X if g.U is None else g.U @ X @ g.U.conj().T
    same(rec, b, want, H, P, 'one operator after the other')
    same(rec, a, want, H, P, 'product of operators acts as their composition')
    m = int(rng.integers(-3, 4))
    cur = H
    step = g if m >= 0 else g.inv()
    for _ in range(abs(m)):
        cur = step.apply(cur)
    same(rec, (g ** m).apply(H), lambda p: ev.mev(cur, p), cur, P, 'power acts as repeated action')
    rec.event('product')
    rec.sig('composition', d, kind, fmt, rs, g.conjugate, g.antisymmetry, h.conjugate, h.antisymmetry, has_U, m)


def linearity(rng, rec):
    import qsymm
    d = int(rng.integers(1, 4))
    n = int(rng.integers(1, 4))
    kind = gen.choice(rng, ['poly', 'Bloch'])
    A, _, fa = draw_model(rng, d, n, kind)
    B, _, fb = draw_model(rng, d, n, kind)
    if not A or not B:
        rec.skip('empty model')
    if tuple(A.momenta) != tuple(B.momenta):
        ren = dict(zip(B.momenta, A.momenta))
        if kind == 'Bloch':
            B = type(B)(dict(B), momenta=A.momenta)
        else:
            B = qsymm.Model({sympy.sympify(k).subs(ren, simultaneous=True): v for k, v in B.items()}, momenta=A.momenta)
    if fa != fb:
        A, B = A.toarray(), B.toarray()
    g = operator(rng, d, n, gen.choice(rng, reps(kind)))
    x, y = gen.number(rng, 'float'), gen.number(rng, 'int')
    z = gen.number(rng, 'complex')
    rec.note(A=repr(dict(A)), B=repr(dict(B)), g=repr(g))
    P = pts(rng)
    gA, gB = g.apply(A), g.apply(B)
    l1 = g.apply(A * x + B * y)
    same(rec, l1, lambda p: x * ev.mev(gA, p) + y * ev.mev(gB, p), A * abs(x) + B * abs(y), P, 'action is real linear')
    zz = z.conjugate() if g.conjugate else z
    same(rec, g.apply(A * z), lambda p: zz * ev.mev(gA, p), A * z, P, 'action is (anti)linear')
    s = -1 if g.antisymmetry else 1
    prod = A @ B
    for p in P:
        rec.close(ev.mev(g.apply(prod), p), s * ev.mev(gA, p) @ ev.mev(gB, p), 'action is multiplicative',
                  scale=100 * max(1., ev.mev_scale(A, p)) * max(1., ev.mev_scale(B, p)))
    same(rec, g.apply(A.zeros_like()) if A.shape else A, lambda p: np.zeros(A.shape), A, P, 'zero model')
    rec.sig('linear', d, n, kind, fa, fb, g.conjugate, g.antisymmetry, g.U is None)


def invariance(rng, rec):
    """Group averages are invariant, and perturbing them is noticed."""
    import qsymm
    d = int(rng.integers(1, 4))
    n = int(rng.integers(1, 4))
    kind = gen.choice(rng, ['poly', 'Bloch'])
    H, _, fmt = draw_model(rng, d, n, kind)
    H = H.toarray() if fmt == 'csr' else H
    # cyclic group of order m of commuting data: R^m = 1, U^m = 1 in the (anti)linear sense
    R = np.eye(d, dtype=int)[rng.permutation(d)] * rng.choice([-1, 1], d)[:, None]
    V = gen.unitary(rng, n)
    c, a = bool(rng.random() < .5), bool(rng.random() < .4)
    if c:
        # real orthogonal in some basis: U = V O V^T, U U* = V O^2 V^dagger
        O = np.diag(rng.choice([-1, 1], n)).astype(complex)
        U = V @ O @ V.T
    else:
        U = V @ np.diag(1j ** rng.integers(0, 4, n)) @ V.conj().T
    g = qsymm.PointGroupElement(R, c, a, U)
    rec.note(H=repr(dict(H)), g=repr(g))
    S, cur = H, g.apply(H)
    for _ in range(11):
        S = S + cur
        cur = g.apply(cur)
    P = pts(rng)
    same(rec, cur, lambda p: ev.mev(H, p), H, P, 'twelfth power of the operator acts trivially')
    S = S * (1 / 12)
    gS = g.apply(S)
    same(rec, gS, lambda p: ev.mev(S, p), H, P, 'average over the group is invariant')
    rec.check(gS == S and S == gS, 'invariant model equals its image', S=repr(dict(S)), gS=repr(dict(gS)))
    dev = max(np.max(np.abs(ev.apply_oracle(g, H, p) - ev.mev(H, p))) for p in pts(rng))
    if dev > 1e-2:
        rec.check(not g.apply(H) == H, 'model without the symmetry differs from its image')
    rec.event('invariant model')
    rec.sig('invariance', d, n, kind, fmt, c, a, R.tobytes())


def sessions(rng, rec):
    mon = Monitors(rec, int(rng.integers(1 << 20)))
    with mon.symmetry_action():
        name = pipelines.run(rng, rec, ('bloch', 'kdotp', 'bdg', 'bloch'))
    rec.check(True, 'session finished')
    rec.sig('session', name, mon.n // 20)


FAMILIES = {
    'action': (action, 800, 15000),
    'composition': (composition, 480, 9000),
    'linearity': (linearity, 300, 5000),
    'invariance': (invariance, 400, 6000),
    'sessions': (sessions, 32, 300),
}
