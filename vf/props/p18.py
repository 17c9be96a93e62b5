"""P18: generated pairing families satisfy the Bogoliubov-de Gennes symmetries."""
import numpy as np
import scipy.linalg as la
import sympy

from .. import ev, gen, symm, fam
from .p17 import operators, options, degrees, call

RULE = ('states are (dimension, size, powers, kinds of generators, phases, square of particle-hole, options, number of members); '
        'the Bogoliubov-de Gennes Hamiltonian is assembled explicitly and the span is compared with the null space of the '
        'invariance conditions evaluated at sample points')
REQUIRED_EVENTS = ('members', 'empty family', 'particle-hole squares to -1', 'particle-hole squares to +1', 'nontrivial phases',
                   'complex phases', 'continuous rotation', 'conserved quantity', 'antiunitary', 'antisymmetry', 'prettified',
                   'sparse', 'restricted powers', 'other momenta', 'invalid square')
ASSUMPTIONS = ['unitary parts are unitary matrices, generators are Hermitian',
               'phases of generators of continuous symmetries are real numbers added to the generator of the hole block',
               'prettifying is documented as possibly unstable: an assertion error naming it is inconclusive']


def bdg(D):
    n = len(D)
    Z = np.zeros((n, n))
    return np.block([[Z, D], [D.conj().T, Z]])


def extend(g, phase):
    x = fam.as_op(g)
    if hasattr(g, 'conjugate'):
        R, c, a, U = x
        return R, c, a, la.block_diag(U, phase * U.conj())
    _, R, L = x
    return 'cont', R, la.block_diag(L, -L.conj() + phase * np.eye(len(L)))


def space_for(rng, dim, n, total, all_powers, momenta):
    out = []
    for d in degrees(total):
        pw = [range(d + 1)] * dim if all_powers is None else [range(p + 1) if isinstance(p, int) else p for p in all_powers[:dim]]
        for p in fam.monomials(dim, d, pw):
            f = fam.Monomial(p)
            for i in range(n):
                for j in range(n):
                    for c in (1, 1j):
                        m = np.zeros((n, n), complex)
                        m[i, j] = c * np.sqrt(.5)
                        out.append([(f, bdg(m))])
    return fam.Space(out, momenta[:dim], 2 * n, rng)


def pairing(rng, rec):
    import qsymm
    dim = int(gen.choice(rng, (0, 1, 1, 2, 2, 2, 3)))
    ops, n, desc = operators(rng, rec, dim, nmax=3)
    total, ap, mom, kw = options(rng, rec, dim, n)
    sq = int(rng.choice([1, -1]))
    if rng.random() < .85:
        kw['ph_square'] = sq
    else:
        sq = 1
    rec.event('particle-hole squares to %+d' % sq)
    phases = np.ones(len(ops))
    u = rng.random()
    if u < .7:
        phases = rng.choice([1., -1.], len(ops))
        if u < .3:
            phases = np.array([z if hasattr(g, 'conjugate') else rng.choice([0., 1., .5])
                               for g, z in zip(ops, np.exp(1j * np.pi * rng.integers(0, 6, len(ops)) / 3))])
            rec.event('complex phases')
            if np.all(phases.imag == 0):
                phases = phases.real
        else:
            phases = np.array([z if hasattr(g, 'conjugate') else rng.choice([0., 1., -1])
                               for g, z in zip(ops, phases)])
        # plain numbers for the real phases of continuous generators
        lst = [complex(z) if z.imag else float(z.real) for z in map(complex, phases)]
        kw['phases'] = gen.choice(rng, [list, tuple, np.array])(lst)
        rec.event('nontrivial phases')
    cont = gen.choice(rng, [list, list, tuple])
    rec.note(ops=repr(ops), dim=dim, total=total, kw=repr(kw))
    arg = cont(ops)
    dig = [ev.digest(g) for g in ops], ev.digest(kw), ev.digest(total), len(arg)
    F = call(rec, qsymm.continuum_pairing, arg, dim, total, **kw)
    rec.check(([ev.digest(g) for g in ops], ev.digest(kw), ev.digest(total), len(arg)) == dig, 'arguments unchanged')
    space = space_for(rng, dim, n, total, ap, mom)
    ph = (np.eye(dim), True, True, np.kron(np.array([[0, 1], [sq, 0]]), np.eye(n)))
    ext = [extend(g, p) for g, p in zip(ops, phases)] + [ph]
    N = space.invariant(ext)
    for m in F:
        rec.check(m.shape == (n, n), 'shape of members', got=m.shape)
    C = space.coordinates(rec, F, 'allowed powers and entries', value=lambda m, p: bdg(ev.mev(m, p)), tol=1e-6)
    fam.same_span(rec, C, N, 'pairing family')
    for m in F[:3]:
        judge_member(rec, m, ext, space)
    rec.event('members', len(F))
    if not F:
        rec.event('empty family')
    if F:
        want = [m if isinstance(m, str) else m.name for m in mom[:dim]]
        got = [str(k) for k in F[0].momenta]
        rec.known_or('pairing-momenta', got == want or got != ['k_x', 'k_y', 'k_z'], 'momenta of the members', got=got, want=want)
        rec.check(got == want or got == ['k_x', 'k_y', 'k_z'], 'momenta of the members', got=got, want=want)
    rec.sig(desc, dim, n, str(total), str(ap), sq, tuple(map(str, np.round(phases, 3))), tuple(sorted(kw)), len(F))


def judge_member(rec, m, ext, space):
    for p in space.pts[:2]:
        H = lambda q: bdg(ev.mev(m, q))
        v = H(p)
        for g in ext:
            if isinstance(g[0], str):
                _, R, L = g
                lam = .7
                W = la.expm(-1j * lam * L)
                q = p if R is None else ev.rotated(p, space.momenta, la.expm((1j * lam * R).real))
                w = W @ H(q) @ W.conj().T
            else:
                R, c, a, U = g
                q = ev.rotated(p, space.momenta, (-1 if c else 1) * np.linalg.inv(R))
                w = H(q)
                w = U @ (w.conj() if c else w) @ U.conj().T * (-1 if a else 1)
            rec.close(w, v, 'Bogoliubov-de Gennes Hamiltonian is invariant', tol=1e-6, scale=max(1., np.max(np.abs(v))), g=g)


def invalid(rng, rec):
    import qsymm
    dim = int(rng.integers(1, 4))
    ops = [qsymm.time_reversal(dim, spin=.5)]
    sq = gen.choice(rng, [0, 2, 1j, -2, 'x'])
    rec.raises(ValueError, lambda: qsymm.continuum_pairing(ops, dim, 1, ph_square=sq), 'invalid square of particle-hole')
    rec.event('invalid square')
    rec.sig('invalid', str(sq), dim)


FAMILIES = {
    'pairing': (pairing, 900, 25000),
    'invalid': (invalid, 8, 20),
}
