"""P17: generated continuum families are symmetric, complete and independent."""
import itertools as it

import numpy as np
import scipy.linalg as la
import sympy

from .. import ev, gen, symm, fam
from .p10 import spin, spin_rep
from .p15 import so

RULE = ('states are (workload, dimension, matrix size, powers, kinds of generators, options, number of members); the span is '
        'compared with the null space of the invariance conditions evaluated at sample points')
REQUIRED_EVENTS = ('members', 'empty family', 'continuous rotation', 'conserved quantity', 'antiunitary', 'antisymmetry',
                   'exact rotation', 'lattice rotation', 'prettified', 'sparse', 'restricted powers', 'list of total powers', 'high powers',
                   'other momenta', 'same group', 'invariance under products', 'zero dimensions')
ASSUMPTIONS = ['unitary parts are unitary matrices, generators are Hermitian',
               'prettifying is documented as possibly unstable: an assertion error naming it is inconclusive']


def degrees(total_power):
    return range(total_power + 1) if isinstance(total_power, int) else total_power


def make_space(rng, dim, n, total_power, all_powers, momenta):
    """all_powers: None, or list of int / list of int"""
    out = []
    hb = fam.herm_basis(n)
    for d in degrees(total_power):
        if all_powers is None:
            pw = [range(d + 1)] * dim
        else:
            pw = [range(p + 1) if isinstance(p, int) else p for p in all_powers[:dim]]
        for p in fam.monomials(dim, d, pw):
            f = fam.Monomial(p)
            out += [[(f, m)] for m in hb]
    return fam.Space(out, momenta[:dim], n, rng)


def judge(rec, rng, members, gens, space, what, tol=1e-6):
    """members: list of Models claimed to be the full invariant family"""
    N = space.invariant([fam.as_op(g) for g in gens])
    for m in members:
        rec.check([str(k) for k in m.momenta] == space.momenta, what + ': momenta', got=m.momenta)
        rec.check(m.shape == (space.n, space.n), what + ': shape')
    C = space.coordinates(rec, members, what + ': allowed terms and Hermitian', tol=tol)
    fam.same_span(rec, C, N, what, tol=tol)
    for m in members[:4]:
        check_member(rec, m, gens, space, what, tol)
    return N, C


def check_member(rec, m, gens, space, what, tol):
    for p in space.pts[:2]:
        v = ev.mev(m, p)
        rec.close(v, v.conj().T, what + ': Hermitian at real momenta', tol=tol)
        for g in gens:
            if hasattr(g, 'conjugate'):
                rec.close(ev.apply_oracle(g, m, p), v, what + ': invariant under the symmetry', tol=10 * tol,
                          scale=max(1., np.max(np.abs(v))), g=repr(g))
            else:
                lam = .7
                L = np.zeros((space.n,) * 2) if g.U is None else np.asarray(g.U)
                W = la.expm(-1j * lam * L)
                q = p if g.R is None else ev.rotated(p, m.momenta, la.expm((1j * lam * np.array(g.R).astype(complex)).real))
                rec.close(W @ ev.mev(m, q) @ W.conj().T, v, what + ': invariant under the continuous symmetry', tol=10 * tol,
                          scale=max(1., np.max(np.abs(v))))


# -- random symmetry groups ------------------------------------------------------

def euler(rng):
    return gen.orthogonal(rng, 3, 1)


def operators(rng, rec, dim, nmax=4):
    """List of qsymm operators with unitary parts, of one representation space."""
    import qsymm
    kind = gen.choice(rng, ['spin', 'spin', 'spin', 'cyclic', 'random'])
    exact = bool(rng.random() < .3)
    Rs, rk = symm.point_group(rng, dim, exact)
    one = symm.one_like(Rs, dim)
    if rk == 'sympy':
        rec.event('exact rotation')
    ops = []
    if kind == 'spin':
        s = gen.choice(rng, [0, .5, .5, 1])
        orb = int(rng.choice([1, 1, 2]))
        tau = int(rng.choice([1, 1, 2]))
        n = int(2 * s + 1) * orb * tau
        if n > nmax:
            orb = tau = 1
            n = int(2 * s + 1)
        chars = int(rng.choice([1, -1]))
        for R in Rs:
            g = qsymm.PointGroupElement(R, bool(rng.random() < .15), False)
            if not np.allclose(ev.Rfloat(R) @ ev.Rfloat(R).T, np.eye(dim), atol=1e-9):
                rec.event('lattice rotation')
                if s:
                    s, n = 0, orb * tau
                    ops = []
                    break
            ops.append(qsymm.PointGroupElement(R, g.conjugate, False, symm.rep(g, dim, s, orb, tau, chars)))
        if not s and not ops:
            for R in Rs:
                ops.append(qsymm.PointGroupElement(R, False, False, symm.rep(qsymm.PointGroupElement(R), dim, 0, orb, tau, chars)))
        if rng.random() < .6:
            g = qsymm.PointGroupElement(one, True, False)
            ops.append(qsymm.PointGroupElement(one, True, False, symm.rep(g, dim, s, orb, tau, chars)))
        if tau == 2 and rng.random() < .8:
            c = bool(rng.random() < .6)
            g = qsymm.PointGroupElement(one, c, True)
            U = symm.rep(g, dim, s, orb, tau, chars)
            if rng.random() < .4:
                U = np.kron(np.array([[0, -1], [1, 0]]), np.eye(n // 2)) @ U.conj() if rng.random() < .5 else \
                    np.kron(np.diag([1, -1]), np.eye(n // 2)) @ U
            ops.append(qsymm.PointGroupElement(one, c, True, U))
        # continuous rotations
        if rng.random() < .35 and dim >= 2:
            S = spin(s)
            axes = [2] if dim == 2 or rng.random() < .5 else [0, 1, 2]
            for ax in axes:
                R = np.zeros((dim, dim), complex)
                i, j = (ax + 1) % 3, (ax + 2) % 3
                R[i, j], R[j, i] = 1j, -1j
                L = np.kron(np.eye(orb * tau), S[ax])
                u = rng.random()
                if u < .2 and orb > 1:   # orbital part with its own angular momentum
                    L = L + np.kron(np.kron(np.eye(tau), np.diag([1., -1.])), np.eye(int(2 * s + 1)))
                # direction of rotation matching the spin
                ops.append(qsymm.ContinuousGroupGenerator(R * gen.choice(rng, [1, 1, -1]), L))
            rec.event('continuous rotation')
    elif kind == 'cyclic':
        n = int(rng.integers(1, nmax + 1))
        for R in Rs:
            M = np.linalg.matrix_power(np.eye(dim, dtype=int), 1)
            o, x = 1, ev.Rfloat(R)
            while np.max(np.abs(x - np.eye(dim)), initial=0) > 1e-6:
                o, x = o + 1, x @ ev.Rfloat(R)
            ph = np.exp(2j * np.pi * rng.integers(0, 2 * o, n) / (2 * o))
            W = gen.unitary(rng, n)
            ops.append(qsymm.PointGroupElement(R, False, bool(rng.random() < .2), W @ np.diag(ph) @ W.conj().T))
        u = rng.random()
        if u < .6:
            W = gen.unitary(rng, n)
            U = W @ W.T
            if n % 2 == 0 and rng.random() < .6:
                U = W @ np.kron(np.eye(n // 2), np.array([[0, -1], [1, 0]])) @ W.T
            ops.append(qsymm.PointGroupElement(one, True, bool(rng.random() < .4), U))
    else:
        n = int(rng.integers(1, nmax))
        for R in Rs + [one]:
            if rng.random() < .7:
                ops.append(qsymm.PointGroupElement(R, bool(rng.random() < .3), bool(rng.random() < .2),
                                                   gen.choice(rng, [gen.unitary(rng, n), np.eye(n), np.eye(n)[rng.permutation(n)]])))
    if rng.random() < .3 and n > 1:
        L = np.diag(rng.choice([-1., 0, 1, 2], n)).astype(complex)
        if rng.random() < .5:
            W = gen.unitary(rng, n)
            L = W @ L @ W.conj().T
        L = (L + L.conj().T) / 2
        ops.append(qsymm.ContinuousGroupGenerator(None if rng.random() < .7 else np.zeros((dim, dim)), L))
        rec.event('conserved quantity')
    if not ops:
        ops.append(qsymm.PointGroupElement(one, False, False, np.eye(n)))
    W = symm.basis_change(rng, n) if rng.random() < .5 else np.eye(n)
    out = []
    for g in ops:
        if hasattr(g, 'conjugate'):
            U = W @ g.U @ (W.T if g.conjugate else W.conj().T)
            out.append(qsymm.PointGroupElement(g.R, g.conjugate, g.antisymmetry, U))
            if g.conjugate:
                rec.event('antiunitary')
            if g.antisymmetry:
                rec.event('antisymmetry')
        else:
            L = W @ g.U @ W.conj().T
            out.append(qsymm.ContinuousGroupGenerator(g.R, (L + L.conj().T) / 2))
    return out, n, (kind, rk, tuple(sorted(type(g).__name__[0] + str(int(getattr(g, 'conjugate', 0))) + str(int(getattr(g, 'antisymmetry', 0)))
                                          for g in out)))


def options(rng, rec, dim, n):
    kw = {}
    tmax = {0: 0, 1: 3, 2: 3, 3: 2}[dim]
    if dim == 3 and n > 3:
        tmax = 1
    if dim == 2 and n > 3 or n > 4:
        tmax = min(tmax, 2 if n < 5 else 1)
    total = int(rng.integers(0, tmax + 1))
    if rng.random() < .3:
        total = sorted({int(x) for x in rng.integers(0, tmax + 1, 2)})
        if rng.random() < .3:
            total = list(reversed(total))
        rec.event('list of total powers')
    ap = None
    if rng.random() < .12 and dim and n <= (4, 4, 2, 2)[dim]:
        # a single high power
        top = {1: 10, 2: 6, 3: 4}[dim]
        total = [int(rng.integers(tmax + 1, top + 1))]
        if rng.random() < .3:
            ap = [int(total[0] - rng.integers(0, 3)) if rng.random() < .7 else sorted({int(x) for x in rng.integers(0, total[0] + 1, 4)})
                  for _ in range(dim)]
            kw['all_powers'] = ap
            rec.event('restricted powers')
        rec.event('high powers')
    elif rng.random() < .3 and dim:
        ap = [int(rng.integers(0, 3)) if rng.random() < .5 else sorted({int(x) for x in rng.integers(0, 4, 2)})
              for _ in range(dim + int(rng.integers(0, 2)))]
        kw['all_powers'] = ap
        rec.event('restricted powers')
    mom = ('k_x', 'k_y', 'k_z')
    if rng.random() < .35:
        mom = gen.choice(rng, [('k_y', 'k_x', 'k_z'), ('p', 'q', 'r'), ('q_1', 'q_2', 'q_3'), ('k_z', 'k_x', 'k_y')])
        kw['momenta'] = gen.choice(rng, [tuple, list])(mom)
        if rng.random() < .4:
            kw['momenta'] = [sympy.Symbol(m, commutative=True) for m in mom]
        rec.event('other momenta')
    if rng.random() < .3:
        kw['prettify'] = True
        rec.event('prettified')
        if rng.random() < .4:
            kw['num_digits'] = int(rng.choice([7, 8, 12]))
    if rng.random() < .2:
        kw['sparse_linalg'] = True
        rec.event('sparse')
    return total, ap, mom, kw


def call(rec, f, *a, **kw):
    try:
        return f(*a, **kw)
    except AssertionError as ex:
        if 'make_basis_pretty reduced the size' in str(ex):
            rec.skip('prettifying reported numerical instability')
        raise


def copyarg(x):
    return [list(i) if isinstance(i, list) else i for i in x] if x is not None else None


def family(rng, rec, dims=(0, 1, 1, 2, 2, 2, 3, 3)):
    import qsymm
    dim = int(gen.choice(rng, dims))
    ops, n, desc = operators(rng, rec, dim, nmax=int(gen.choice(rng, [4, 4, 4, 6])))
    total, ap, mom, kw = options(rng, rec, dim, n)
    if dim == 0:
        rec.event('zero dimensions')
    cont = gen.choice(rng, [list, list, tuple, set])
    rec.note(ops=repr(ops), dim=dim, total=total, kw=repr(kw), container=cont.__name__)
    if cont is set and any(not hasattr(g, 'conjugate') for g in ops):
        cont = tuple
    arg = cont(ops)
    dig = [ev.digest(g) for g in ops], ev.digest(kw), ev.digest(total)
    F = call(rec, qsymm.continuum_hamiltonian, arg, dim, total, **kw)
    rec.check(([ev.digest(g) for g in ops], ev.digest(kw), ev.digest(total)) == dig, 'arguments unchanged')
    used = list(arg) if cont is set else ops
    space = make_space(rng, dim, n, total, ap, mom)
    N, C = judge(rec, rng, F, used, space, 'continuum family', tol=1e-6)
    rec.event('members', len(F))
    if not F:
        rec.event('empty family')
    # products of symmetries are symmetries
    pg = [g for g in used if hasattr(g, 'conjugate')]
    if F and len(pg) > 1:
        g = pg[int(rng.integers(len(pg)))] * pg[int(rng.integers(len(pg)))]
        check_member(rec, F[int(rng.integers(len(F)))], [g], space, 'product of symmetries', 1e-6)
        rec.event('invariance under products')
    rec.sig(desc, dim, n, str(total), str(ap), tuple(sorted(kw)), len(F))


def regenerate(rng, rec):
    """Other generators of the same group and other options give the same span."""
    import qsymm
    dim = int(gen.choice(rng, (1, 2, 2, 3)))
    ops, n, desc = operators(rng, rec, dim, nmax=3)
    total, ap, mom, kw = options(rng, rec, dim, n)
    rec.note(ops=repr(ops), dim=dim, total=total, kw=repr(kw))
    F = call(rec, qsymm.continuum_hamiltonian, ops, dim, total, **kw)
    if ap is not None and len(ops) > 1:
        # the span depends on the group only if the powers are closed under it
        ap = kw.pop('all_powers') and None
        F = call(rec, qsymm.continuum_hamiltonian, ops, dim, total, **kw)
    other = []
    order = [ops[i] for i in rng.permutation(len(ops))]
    for i, g in enumerate(order):
        if hasattr(g, 'conjugate'):
            if rng.random() < .5:
                g = g.inv()
            prev = [h for h in other if hasattr(h, 'conjugate')]
            if prev and rng.random() < .6:
                g = prev[int(rng.integers(len(prev)))] * g
            ph = np.exp(1j * rng.uniform(0, 6))
            g = qsymm.PointGroupElement(g.R, g.conjugate, g.antisymmetry, g.U * ph)
        else:
            g = qsymm.ContinuousGroupGenerator(None if g.R is None else np.array(g.R) * 2, g.U * 2)
        other.append(g)
    kw2 = dict(kw, prettify=bool(rng.random() < .5), sparse_linalg=bool(rng.random() < .3))
    G = call(rec, qsymm.continuum_hamiltonian, other, dim, total, **kw2)
    rec.check(len(F) == len(G), 'same number of members for other generators of the group', n=(len(F), len(G)), other=repr(other))
    space = make_space(rng, dim, n, total, ap, mom)
    A = space.coordinates(rec, F, 'family', tol=1e-6)
    B = space.coordinates(rec, G, 'family of other generators', tol=1e-6)
    if len(A):
        q, _ = np.linalg.qr(A.T)
        fam.same_span(rec, B, q.T, 'family of other generators')
    rec.event('same group')
    rec.sig('regenerate', desc, dim, n, str(total), str(ap), tuple(sorted(kw2.items(), key=str)).__repr__(), len(F))


FAMILIES = {
    'family': (family, 1100, 30000),
    'regenerate': (regenerate, 300, 8000),
}
