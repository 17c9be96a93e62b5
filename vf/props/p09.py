"""P09: A continuous generator acts as the derivative of its symmetry family."""
import numpy as np
import scipy.linalg as la
import scipy.sparse as sp
import sympy

from .. import ev, gen

RULE = ('states are (key kind, value format, dimension, size, which parts are given, whether they vanish); the action is compared '
        'with a fourth-order central difference of the finite transformation evaluated in plain numpy and with the '
        'analytic commutator')
REQUIRED_EVENTS = ('rotation part', 'unitary part', 'both parts', 'zero generator', 'sparse model', 'rejected', 'invariant family',
                   'function of momenta')
ASSUMPTIONS = ['models with differentiable momentum dependence', 'derivatives of undefined functions are not evaluated numerically']


def draw_R(rng, d):
    A = rng.normal(size=(d, d))
    A = A - A.T
    if rng.random() < .3:
        A = np.round(A)
    return 1j * A


def draw_model(rng, d, n, kind=None):
    import qsymm
    momenta = {0: (), 1: ('k_x',), 2: gen.choice(rng, [('k_x', 'k_y'), ('k_z', 'k_x'), ('p', 'q')]),
               3: gen.choice(rng, [('k_x', 'k_y', 'k_z'), ('q_1', 'q_2', 'q_3'), ('k_z', 'k_y', 'k_x')])}[d]
    kind = kind or gen.choice(rng, ['poly', 'poly', 'poly', 'bloch', 'func'])
    fmt = gen.choice(rng, ['dense', 'dense', 'csr'])
    if kind == 'func':
        f = [sympy.sin, sympy.cos, sympy.sinh, lambda x: sympy.sqrt(1 + x**2), lambda x: 1 / (2 + sympy.cos(x))]
        ks = []
        for _ in range(int(rng.integers(1, 4))):
            key = gen.monomial(rng, (), p_par=.5)
            for m in momenta:
                if rng.random() < .7:
                    key = key * gen.choice(rng, f)(sympy.Symbol(m) * int(rng.integers(1, 3)))
            if key not in ks:
                ks.append(key)
        m = qsymm.Model({k: gen.value(rng, fmt, (n, n), 'complex') for k in ks}, momenta=momenta)
    else:
        m = gen.model(rng, fmt=fmt, shape=(n, n), momenta=momenta, kind=kind, dtype='complex')
    return m, kind, fmt


def transformed(model, R, U, lam, p):
    n = model.shape[0]
    q = p
    if R is not None:
        O = la.expm(1j * lam * R)
        q = ev.rotated(p, model.momenta, O)
    H = ev.mev(model, q)
    if U is not None:
        V = la.expm(-1j * lam * np.asarray(U))
        H = V @ H @ V.conj().T
    return H


def derivative(model, R, U, p, h=2e-3):
    f = lambda l: transformed(model, R, U, l, p)
    # sixth-order central difference
    return (45 * (f(h) - f(-h)) - 9 * (f(2 * h) - f(-2 * h)) + (f(3 * h) - f(-3 * h))) / (60 * h)


def derivative_case(rng, rec):
    import qsymm
    d, n = int(rng.integers(1, 4)), int(rng.integers(1, 4))
    which = gen.choice(rng, ['R', 'U', 'both', 'both', 'none', 'zeros'])
    H, kind, fmt = draw_model(rng, d, n)
    R = draw_R(rng, d) if which in ('R', 'both') else None
    U = gen.hermitian(rng, n) if which in ('U', 'both') else None
    if which == 'zeros':
        R, U = np.zeros((d, d)), np.zeros((n, n))
    if which == 'both' and rng.random() < .15:
        R = R * 0
    if which == 'both' and rng.random() < .15:
        U = np.eye(n) * gen.choice(rng, [0., 1.7])
    if U is not None and rng.random() < .15:
        U = U.real
        U = (U + U.T) / 2
    g = qsymm.ContinuousGroupGenerator(R, U)
    rec.note(H=repr(dict(H)), momenta=H.momenta, R=R, U=U, kind=kind, fmt=fmt)
    dig = ev.digest(H), ev.digest(g)
    r = g.apply(H)
    rec.check((ev.digest(H), ev.digest(g)) == dig, 'operands unchanged')
    rec.check(type(r) is qsymm.Model and r.shape == H.shape and tuple(r.momenta) == tuple(H.momenta), 'shape and momenta kept')
    rec.check((fmt == 'csr') == issubclass(r.format, sp.spmatrix), 'format kept', format=r.format)
    for p in ev.points(int(rng.integers(1 << 30)), 2):
        s = max(10., 30 * ev.mev_scale(H, p) * (1 + (np.max(np.abs(R)) if R is not None and R.size else 0)
                                                + (np.max(np.abs(U)) if U is not None else 0)))
        rec.close(ev.mev(r, p), derivative(H, R, U, p), 'action of the generator is the derivative of the transformation',
                  scale=s, tol=1e-5)
        if R is None or not np.any(R):
            want = np.zeros((n, n)) if U is None else -1j * (U @ ev.mev(H, p) - ev.mev(H, p) @ U)
            rec.close(ev.mev(r, p), want, 'action of a unitary generator is the commutator', scale=s)
    if which in ('none', 'zeros'):
        rec.check(r == {} or r == H.zeros_like(), 'zero generator gives zero')
        rec.event('zero generator')
    rec.event({'R': 'rotation part', 'U': 'unitary part', 'both': 'both parts'}.get(which, 'trivial part'))
    if fmt == 'csr':
        rec.event('sparse model')
    if kind == 'func':
        rec.event('function of momenta')
    rec.sig('derivative', d, n, which, kind, fmt, len(H))


def linear(rng, rec):
    import qsymm
    C = qsymm.ContinuousGroupGenerator
    d, n = int(rng.integers(1, 4)), int(rng.integers(1, 4))
    H, kind, fmt = draw_model(rng, d, n, 'poly')
    K = qsymm.Model({k: gen.value(rng, fmt, (n, n), 'complex') for k in gen.keys(rng, 2, [str(k) for k in H.momenta], 'poly')}, momenta=H.momenta)
    R1, R2, U1, U2 = draw_R(rng, d), draw_R(rng, d), gen.hermitian(rng, n), gen.hermitian(rng, n)
    a, b = rng.normal(size=2)
    rec.note(H=repr(dict(H)), K=repr(dict(K)), R1=R1, R2=R2, U1=U1, U2=U2, a=a, b=b)
    x = C(a * R1 + b * R2, a * U1 + b * U2).apply(H)
    y, z = C(R1, U1).apply(H), C(R2, U2).apply(H)
    w = C(R1, U1).apply(H * a + K * b)
    v = C(R1, U1).apply(K)
    c = complex(rng.normal(), rng.normal())
    hc = C(R1, U1).apply(H * c)
    only_R, only_U = C(R1, None).apply(H), C(None, U1).apply(H)
    prod = C(R1, U1).apply(H @ K)
    # commutator of generators
    gg = C(R1, U1).apply(z)
    gh = C(R2, U2).apply(y)
    for p in ev.points(int(rng.integers(1 << 30)), 2):
        s = 100 * max(1., ev.mev_scale(H, p), ev.mev_scale(K, p), ev.mev_scale(H, p) * ev.mev_scale(K, p))
        e = lambda m: ev.mev(m, p)
        rec.close(e(x), a * e(y) + b * e(z), 'linear in the generator', scale=s)
        rec.close(e(w), a * e(y) + b * e(v), 'linear in the model', scale=s)
        rec.close(e(hc), c * e(y), 'complex linear in the model', scale=s)
        rec.close(e(only_R) + e(only_U), e(y), 'missing parts act as zero', scale=s)
        rec.close(e(prod), e(y) @ e(K) + e(H) @ e(v), 'acts as a derivation on products', scale=s)
    rec.sig('linear', d, n, fmt)


def invariant(rng, rec):
    """Vanishing action if and only if finite transformations leave the model invariant."""
    import qsymm
    d = int(rng.integers(2, 4))
    s = gen.choice(rng, [1 / 2, 1, 3 / 2])
    S = qsymm.groups.spin_matrices(s)
    n = S.shape[1]
    V = gen.unitary(rng, n)
    S = np.array([V @ x @ V.conj().T for x in S])
    axis = rng.normal(size=3)
    axis /= np.linalg.norm(axis)
    L = np.array([[[0, 0, 0], [0, 0, -1j], [0, 1j, 0]], [[0, 0, 1j], [0, 0, 0], [-1j, 0, 0]], [[0, -1j, 0], [1j, 0, 0], [0, 0, 0]]])
    kx, ky, kz = sympy.symbols('k_x k_y k_z')
    if d == 2:
        axis = np.array([0, 0, 1.])
        R = L[2][:2, :2]
    else:
        R = np.tensordot(axis, L, 1)
    # momenta and spin rotate together: the sign of U is fixed by the oracle below
    k = [kx, ky, kz][:d]
    sgn = int(rng.choice([-1, 1]))
    U = sgn * np.tensordot(axis, S, 1)
    terms = {}
    for i in range(d):
        terms[sympy.Symbol('a') * k[i]] = S[i]
    if d == 2:
        terms = {sympy.Symbol('a') * kx: S[0], sympy.Symbol('a') * ky: S[1], sympy.Symbol('B'): S[2]}
    for x in k:
        terms[x**2] = np.eye(n)
    if rng.random() < .4:
        bad = gen.choice(rng, ['B', 'aniso'])
        if bad == 'B':
            terms[sympy.Symbol('b_1')] = S[0] + .5 * S[1]
        else:
            terms[kx**2] = np.eye(n) * 1.5
    H = qsymm.Model(terms, momenta=[str(x) for x in k])
    g = qsymm.ContinuousGroupGenerator(R, U)
    rec.note(H=repr(dict(H)), R=R, U=U)
    r = g.apply(H)
    dev = 0.
    for p in ev.points(int(rng.integers(1 << 30)), 2):
        for lam in rng.uniform(-3, 3, 2):
            dev = max(dev, np.max(np.abs(transformed(H, R, U, lam, p) - ev.mev(H, p))))
    zero = bool(r == {})
    rec.check(zero == (dev < 1e-8), 'action vanishes exactly if all finite transformations leave the model invariant',
              dev=dev, result=repr(dict(r)))
    rec.event('invariant family' if zero else 'broken family')
    rec.sig('invariant', d, s, zero, sgn, len(terms))


def validation(rng, rec):
    import qsymm
    C = qsymm.ContinuousGroupGenerator
    d, n = int(rng.integers(2, 4)), int(rng.integers(2, 5))
    R, U = draw_R(rng, d), gen.hermitian(rng, n)
    C(R, U), C(R), C(None, U), C()
    g = C(R, U)
    rec.close(g.R, R, 'R stored')
    rec.close(g.U, U, 'U stored')
    eps = 10. ** float(rng.uniform(-3, 1))
    i, j = rng.choice(n, 2, replace=False)
    bad = U.copy().astype(complex)
    how = gen.choice(rng, ['entry', 'diagonal', 'antihermitian', 'random'])
    if how == 'entry':
        bad[i, j] += eps
    elif how == 'diagonal':
        bad[i, i] += 1j * eps
    elif how == 'antihermitian':
        bad = bad * 1j
    else:
        bad = rng.normal(size=(n, n)) + 1j * rng.normal(size=(n, n))
    rec.note(U=bad, how=how)
    rec.raises(ValueError, lambda: C(R, bad), 'generator with a matrix U that is not Hermitian')
    rec.raises(ValueError, lambda: C(None, bad), 'generator with a matrix U that is not Hermitian')
    a, b = rng.choice(d, 2, replace=False)
    badR = R.copy()
    howR = gen.choice(rng, ['real antisymmetric', 'symmetric', 'diagonal', 'entry', 'rotation'])
    if howR == 'real antisymmetric':
        badR = (R / 1j).real
        if not np.any(np.abs(badR) > 1e-3):
            rec.skip('trivial')
    elif howR == 'symmetric':
        badR = badR + eps * (np.eye(d)[[a]].T @ np.eye(d)[[b]] + np.eye(d)[[b]].T @ np.eye(d)[[a]])
    elif howR == 'diagonal':
        badR[a, a] += eps
    elif howR == 'entry':
        badR[a, b] += 1j * eps
    else:
        badR = gen.orthogonal(rng, d, 1)
        if np.allclose(badR, np.eye(d)):
            rec.skip('trivial')
    rec.note(R=badR, howR=howR)
    rec.raises(ValueError, lambda: C(badR, U), 'generator with a matrix R that is not Hermitian antisymmetric')
    rec.raises(ValueError, lambda: C(badR), 'generator with a matrix R that is not Hermitian antisymmetric')
    rec.event('rejected')
    rec.sig('validation', d, n, how, howR, int(np.log10(eps)))


FAMILIES = {
    'derivative': (derivative_case, 1000, 12000),
    'linear': (linear, 300, 4000),
    'invariant': (invariant, 150, 2000),
    'validation': (validation, 400, 3000),
}
