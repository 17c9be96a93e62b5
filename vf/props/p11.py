"""P11: Predefined operators represent the named geometric operation."""
import itertools as it

import numpy as np
import scipy.linalg as la
import sympy

from .. import ev, gen
from .p10 import spin

RULE = ('states are (factory, dimension, spin representation, angle class, options); real space matrices are compared with the '
        'Rodrigues and Householder formulas and unitary parts with the pseudovector transformation of the spin')
REQUIRED_EVENTS = ('rotation', 'rotoinversion', 'mirror', 'time reversal', 'custom spin', 'square', 'cubic', 'hexagonal', 'orbitals',
                   'algebra', 'rejected')
ASSUMPTIONS = ['custom spin operators satisfy the angular momentum algebra with real structure under exp(-i pi S_y) K']
SPINS = [0, 1 / 2, 1 / 2, 1, 3 / 2, 2, 5 / 2]


def covariance(rec, g, S, msg, tol=1e-7):
    """U (v.S)^(*) U^dagger = +-det(R) (R v).S for all v; S three spin matrices."""
    U = np.asarray(g.U, complex)
    R = ev.Rfloat(g.R)
    d = len(R)
    n = S.shape[1]
    rec.check(U.shape == (n, n), msg + ': size of the unitary part', got=U.shape, expected=n)
    rec.close(U @ U.conj().T, np.eye(n), msg + ': unitary', tol=1e-8)
    R3 = np.eye(3)
    R3[:d, :d] = R
    P3 = np.linalg.det(R3) * R3
    for j in range(3):
        A = S[j].conj() if g.conjugate else S[j]
        got = U @ A @ U.conj().T
        want = (-1 if g.conjugate else 1) * np.tensordot(P3[:, j], S, 1)
        rec.close(got, want, msg + ': spin transforms as a pseudovector', tol=tol, axis='xyz'[j])


def draw_spin(rng, rec):
    """argument for `spin`, spin matrices; custom representations included"""
    s = gen.choice(rng, SPINS)
    S = spin(s)
    u = rng.random()
    if u < .55:
        arg = s if rng.random() < .8 or s != int(s) else int(s)
        return arg, S, str(s)
    rec.event('custom spin')
    if u < .7:
        # sum of representations
        s2 = gen.choice(rng, [0, 1 / 2, 1])
        S2 = spin(s2)
        S = np.array([la.block_diag(a, b) for a, b in zip(S, S2)])
        return (S if rng.random() < .5 else list(S)), S, 'sum %s %s' % (s, s2)
    if u < .85:
        k = int(rng.integers(2, 4))
        S = np.array([np.kron(a, np.eye(k)) for a in S])
        return S, S, 'copies %s %d' % (s, k)
    # real orthogonal rotation of the basis keeps S_y imaginary and the others real
    O = gen.orthogonal(rng, S.shape[1])
    S = np.array([O @ a @ O.T for a in S])
    return S, S, 'rotated %s' % s


def draw_axis(rng, d):
    u = rng.random()
    if u < .4:
        v = rng.normal(size=d)
        return v * 10. ** rng.uniform(-2, 2)
    while True:
        v = rng.integers(-2, 3, size=d)
        if np.any(v):
            return gen.choice(rng, [v, v.tolist(), v.astype(float), tuple(v.tolist())])


def draw_angle(rng):
    u = rng.random()
    if u < .45:
        n = int(gen.choice(rng, [1, 2, 3, 4, 5, 6, 8, 12]))
        return int(rng.integers(-n, 2 * n + 1)) / n
    if u < .55:
        return int(rng.integers(-2, 3))
    if u < .6:
        return sympy.Rational(1, 3) if False else 1 / 3
    return float(rng.uniform(-1.5, 1.5))


def flags(rec, g, c, a, msg):
    rec.check(bool(g.conjugate) is c and bool(g.antisymmetry) is a, msg + ': kind', got=(g.conjugate, g.antisymmetry))


def factories(rng, rec):
    import qsymm
    which = gen.choice(rng, ['rotation2', 'rotation3', 'rotation3', 'rotoinversion', 'mirror', 'mirror', 'tr', 'onsite', 'U'])
    arg, S, name = draw_spin(rng, rec)
    with_spin = rng.random() < .7
    kw = dict(spin=arg) if with_spin else {}
    if which in ('rotation2', 'rotation3', 'rotoinversion'):
        phi = draw_angle(rng)
        axis = None if which == 'rotation2' else draw_axis(rng, 3)
        inv = which == 'rotoinversion'
        rec.note(which=which, phi=phi, axis=axis, spin=name, with_spin=with_spin)
        if which == 'rotation2':
            g, R = qsymm.rotation(phi, **kw), gen.rot2(2 * np.pi * phi)
        else:
            g = qsymm.rotation(phi, axis, inversion=inv, **kw) if inv or rng.random() < .5 else qsymm.rotation(phi, axis, **kw)
            R = gen.rot3(axis, 2 * np.pi * phi) * (-1 if inv else 1)
        rec.close(ev.Rfloat(g.R), R, 'spatial part of %s' % which, tol=1e-7)
        flags(rec, g, False, False, which)
        if with_spin:
            n3 = np.array([0, 0, 1.]) if axis is None else np.asarray(axis, float) / np.linalg.norm(axis)
            U = la.expm(-2j * np.pi * phi * np.tensordot(n3, S, 1))
            rec.close(g.U, U, 'spin part of %s is exp(-i phi n.S)' % which, tol=1e-8)
            covariance(rec, g, S, which)
        rec.event('rotation' if not inv else 'rotoinversion')
    elif which == 'mirror':
        d = int(rng.integers(1, 4))
        if with_spin:
            d = max(d, 2)
        axis = draw_axis(rng, d)
        rec.note(which=which, axis=axis, spin=name, with_spin=with_spin)
        before = ev.digest(axis)
        g = qsymm.mirror(axis, **kw)
        rec.check(ev.digest(axis) == before, 'axis unchanged')
        n = np.asarray(axis, float) / np.linalg.norm(axis)
        R = np.eye(d) - 2 * np.outer(n, n)
        rec.close(ev.Rfloat(g.R), R, 'spatial part of mirror', tol=1e-7)
        flags(rec, g, False, False, 'mirror')
        if with_spin:
            n3 = np.append(n, np.zeros(3 - d))
            rec.close(g.U, la.expm(-1j * np.pi * np.tensordot(n3, S, 1)), 'spin part of mirror', tol=1e-8)
            covariance(rec, g, S, 'mirror')
        rec.event('mirror')
    elif which == 'tr':
        d = int(rng.integers(0, 4))
        g = qsymm.time_reversal(d, **kw)
        rec.note(which=which, d=d, spin=name, with_spin=with_spin)
        rec.check(np.array_equal(ev.Rfloat(g.R), np.eye(d)), 'time reversal has no spatial action')
        flags(rec, g, True, False, 'time reversal')
        if with_spin:
            rec.close(g.U, la.expm(-1j * np.pi * S[1]), 'unitary part of time reversal', tol=1e-8)
            if not name.startswith('rotated') or True:
                covariance(rec, g, S, 'time reversal')
        rec.event('time reversal')
    elif which == 'onsite':
        d = int(rng.integers(0, 4))
        n = int(rng.integers(1, 4))
        U = None if rng.random() < .4 else gen.unitary(rng, n)
        rec.note(which=which, d=d, U=U)
        for f, sgn, c, a in ((qsymm.time_reversal, 1, True, False), (qsymm.particle_hole, 1, True, True),
                             (qsymm.chiral, 1, False, True), (qsymm.inversion, -1, False, False)):
            g = f(d, U) if rng.random() < .5 else f(realspace_dim=d, U=U)
            rec.check(np.array_equal(ev.Rfloat(g.R), sgn * np.eye(d)), '%s: spatial part' % f.__name__)
            flags(rec, g, c, a, f.__name__)
            rec.check((g.U is None) == (U is None), '%s: unitary part given' % f.__name__)
            if U is not None:
                rec.close(g.U, U, '%s: unitary part' % f.__name__, tol=1e-12)
        one = qsymm.identity(d, None if U is None else n)
        rec.check(np.array_equal(ev.Rfloat(one.R), np.eye(d)), 'identity: spatial part')
        flags(rec, one, False, False, 'identity')
        rec.check((one.U is None) == (U is None) and (U is None or np.array_equal(one.U, np.eye(n))), 'identity: unitary part')
    else:
        n = int(rng.integers(1, 4))
        U = gen.unitary(rng, n)
        axis, phi = draw_axis(rng, 3), draw_angle(rng)
        rec.note(which=which, axis=axis, phi=phi, U=U)
        for g in (qsymm.rotation(phi, U=U), qsymm.rotation(phi, axis, U=U), qsymm.mirror(axis, U=U), qsymm.rotation(phi, axis, True, U)):
            rec.close(g.U, U, 'given unitary part is used', tol=1e-12)
        for f in (lambda: qsymm.rotation(phi, U=U, spin=.5), lambda: qsymm.mirror(axis, U=U, spin=.5),
                  lambda: qsymm.time_reversal(3, U=U, spin=.5), lambda: qsymm.rotation(phi, [1, 0])):
            rec.raises(ValueError, f, 'contradictory arguments')
        rec.event('rejected')
    rec.sig('factories', which, name if with_spin else None)


def point_groups(rng, rec):
    import qsymm
    from qsymm.groups import square, cubic, hexagonal, generate_group
    which = gen.choice(rng, ['square', 'cubic', 'hexagonal', 'hexagonal'])
    tr = bool(rng.random() < .5)
    with_spin = bool(rng.random() < .6)
    ph = False if with_spin else bool(rng.random() < .5)
    arg, S, name = draw_spin(rng, rec)
    kw = dict(tr=tr, ph=ph)
    if with_spin:
        kw['spin'] = arg
    dim = {'square': 2, 'cubic': 3, 'hexagonal': int(rng.integers(2, 4))}[which]
    sym = bool(rng.random() < .5)
    rec.note(which=which, dim=dim, tr=tr, ph=ph, spin=name if with_spin else None, sympy_R=sym)
    call = {'square': lambda **k: square(**k), 'cubic': lambda **k: cubic(**k),
            'hexagonal': lambda **k: hexagonal(dim, sympy_R=sym, **k)}[which]
    G = call(**kw)
    gens = call(generators=True, **kw)
    # independent list of the point group
    if which in ('square', 'cubic'):
        ref = [np.eye(dim)[list(p)] * np.array(s)[:, None] for p in it.permutations(range(dim)) for s in it.product([1, -1], repeat=dim)]
    else:
        ref2 = [gen.rot2(2 * np.pi * k / 6) @ m for k in range(6) for m in (np.eye(2), np.diag([-1, 1]))]
        ref = ref2 if dim == 2 else [la.block_diag(r, [[z]]) for r in ref2 for z in (1, -1)]
    kinds = [(c, a) for c in ((False, True) if tr and not ph else (False,)) for a in (False,)]
    kinds = {(False, False)}
    if tr:
        kinds |= {(True, False)}
    if ph:
        kinds |= {(not c, not a) for c, a in set(kinds)}
    want = [(R, c, a) for R in ref for c, a in kinds]
    rec.check(len(G) == len(want), 'number of elements', got=len(G), expected=len(want))
    for R, c, a in want:
        m = [g for g in G if bool(g.conjugate) == c and bool(g.antisymmetry) == a and np.allclose(ev.Rfloat(g.R), R, atol=1e-7)]
        rec.check(len(m) == 1, 'every element of the point group is present once', R=R, c=c, a=a, found=len(m))
    closed = generate_group(gens)
    rec.check(closed == G and len(closed) == len(G), 'generators generate the group')
    rec.check(len(gens) < len(G) and gens <= G, 'generators are elements of the group')
    for g in G:
        rec.check((g.U is not None) == with_spin, 'unitary part given exactly if spin is given')
        if with_spin:
            covariance(rec, g, S, 'element of the %s group' % which)
    if which == 'hexagonal':
        exact = [g for g in G if isinstance(g.R, sympy.MatrixBase)]
        rec.check(bool(exact) == sym, 'exact matrices if requested')
    if with_spin:
        rec.raises(ValueError, lambda: call(tr=tr, ph=True, spin=arg), 'spin with particle-hole symmetry')
        if which == 'hexagonal':
            rec.raises(ValueError, lambda: hexagonal(int(rng.choice([1, 4])), tr=tr, ph=ph), 'dimension of the hexagonal group')
    rec.event(which)
    rec.sig('group', which, dim, tr, ph, name if with_spin else None, sym)


def algebra(rng, rec):
    import qsymm
    from qsymm.groups import spin_matrices, spin_rotation, L_matrices
    s = gen.choice(rng, [0, 1 / 2, 1, 3 / 2, 2, 5 / 2, 3, 7 / 2, 4, 9 / 2, 5])
    rec.note(s=s)
    S = spin_matrices(s)
    d = int(round(2 * s + 1))
    rec.check(S.shape == (3, d, d), 'shape of spin matrices')
    rec.close(S, spin(s), 'spin matrices in the standard basis', tol=1e-12)
    rec.close(np.array([x.conj().T for x in S]), S, 'Hermitian')
    for i, j, k in ((0, 1, 2), (1, 2, 0), (2, 0, 1)):
        rec.close(S[i] @ S[j] - S[j] @ S[i], 1j * S[k], 'angular momentum algebra', tol=1e-10)
    rec.close(sum(x @ x for x in S), s * (s + 1) * np.eye(d), 'Casimir', tol=1e-10)
    S0 = spin_matrices(s, include_0=True)
    rec.close(S0, np.array([np.eye(d), *S]), 'with the identity')
    n = rng.normal(size=3) * gen.choice(rng, [1., np.pi, .1])
    U = spin_rotation(n, s)
    rec.close(U, la.expm(-1j * np.tensordot(n, spin(s), 1)), 'spin rotation', tol=1e-9)
    R = gen.rot3(n, np.linalg.norm(n))
    for j in range(3):
        rec.close(U @ S[j] @ U.conj().T, np.tensordot(R[:, j], S, 1), 'spin rotation rotates the spin', tol=1e-8)
    rec.close(spin_rotation(n if rng.random() < .5 else n.tolist(), list(S)), U, 'explicit spin operators', tol=1e-9)
    # real space and orbitals
    L = L_matrices(3, 1)
    rec.close(spin_rotation(n, L), R, 'vector rotation', tol=1e-9)
    v = rng.normal(size=3)
    rec.close(np.tensordot(spin_rotation(n, L_matrices(3, l=1)).real, v, 1), R @ v, 'p orbitals rotate as a vector', tol=1e-9)
    D = L_matrices(3, 2)
    s3 = np.sqrt(3)

    def dorb(r):
        x, y, z = r
        return np.array([(x * x - y * y) / 2, (3 * z * z - r @ r) / (2 * s3), x * y, y * z, z * x])
    U2 = spin_rotation(n, D)
    # orbitals rotate contragrediently to functions: the coefficient vector of f(R^-1 r) is U2 c
    rec.close(U2.imag, np.zeros((5, 5)), 'rotation of d orbitals is real', tol=1e-9)
    c = rng.normal(size=5)
    r = rng.normal(size=3)
    rec.close((U2.real @ c) @ dorb(r), c @ dorb(np.linalg.inv(R) @ r), 'd orbitals rotate as functions', tol=1e-8)
    cp = rng.normal(size=3)
    rec.close((spin_rotation(n, L).real @ cp) @ r, cp @ (np.linalg.inv(R) @ r), 'p orbitals rotate as functions', tol=1e-8)
    L2 = L_matrices(2)
    phi = rng.normal()
    rec.close(la.expm(-1j * phi * L2[0]), gen.rot2(phi), 'two-dimensional rotation', tol=1e-9)
    rec.close(spin_rotation([phi], L2), gen.rot2(phi), 'two-dimensional rotation', tol=1e-9)
    for M in (L, D):
        for i, j, k in ((0, 1, 2), (1, 2, 0), (2, 0, 1)):
            rec.close(M[i] @ M[j] - M[j] @ M[i], 1j * M[k], 'angular momentum algebra', tol=1e-10)
        rec.close(np.array([-m.T for m in M]), M, 'antisymmetric')
        rec.close(M.real, np.zeros(M.shape), 'imaginary')
    rec.raises(ValueError, lambda: L_matrices(4, 1), 'dimension of L')
    rec.raises((AssertionError, ValueError), lambda: spin_matrices(float(gen.choice(rng, [.3, 1.2, .75]))), 'spin must be half-integer')
    # roundint
    ax = gen.choice(rng, [[1, 0, 0], [0, 1, 0], [0, 0, 1]])
    m = int(rng.integers(-4, 5))
    Ri = spin_rotation(np.array(ax) * m * np.pi / 2, L, roundint=True)
    rec.close(np.array(Ri), gen.rot3(ax, m * np.pi / 2), 'rounded rotation', tol=1e-9)
    rec.check(np.array(Ri).dtype.kind == 'i', 'rounded rotation is integer')
    rec.event('orbitals')
    rec.event('algebra')
    rec.sig('algebra', s)


def combination(rng, rec):
    """Composite operators keep the correspondence between the real space and the spin part."""
    import qsymm
    arg, S, name = draw_spin(rng, rec)
    d = int(rng.integers(2, 4))
    n = S.shape[1]
    pool = [qsymm.time_reversal(d, spin=arg), qsymm.inversion(d, U=np.eye(n)) if d == 3 else qsymm.rotation(1 / 2, spin=arg),
            qsymm.mirror(draw_axis(rng, d), spin=arg)]
    if d == 2:
        pool += [qsymm.rotation(draw_angle(rng), spin=arg)]
    else:
        pool += [qsymm.rotation(draw_angle(rng), draw_axis(rng, 3), spin=arg), qsymm.rotation(draw_angle(rng), draw_axis(rng, 3), True, spin=arg)]
    g = qsymm.identity(d, n)
    seq = []
    for _ in range(int(rng.integers(2, 6))):
        i = int(rng.integers(len(pool)))
        h = pool[i]
        if rng.random() < .3:
            h = h.inv()
        g = g * h
        seq.append(i)
    rec.note(spin=name, d=d, seq=seq, pool=[repr(p) for p in pool])
    covariance(rec, g, S, 'composite operator')
    rec.sig('combination', d, name, len(seq))


FAMILIES = {
    'factories': (factories, 1500, 20000),
    'point_groups': (point_groups, 96, 1200),
    'algebra': (algebra, 100, 1000),
    'combination': (combination, 300, 4000),
}
