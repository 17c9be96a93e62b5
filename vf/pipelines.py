"""Realistic sessions: what the documentation and tutorials do with qsymm, with
randomised ingredients.  They are run under the online monitors of vf/mon.py,
which judge every library call made inside them."""
import itertools as it

import numpy as np
import scipy.linalg as la
import scipy.sparse as sp
import sympy

from . import ev, gen

STRINGS = [
    "(k_x**2 + k_y**2 - mu) * sigma_0 + alpha * (k_x * sigma_y - k_y * sigma_x) + B * sigma_z",
    "hbar^2 / (2*m) * (k_x**2 + k_y**2 + k_z**2) * eye(2) + J * (k_x * sigma_x + k_y * sigma_y + k_z * sigma_z)",
    "kron(sigma_z, sigma_0) * (k_x**2 + k_y**2 - mu) + Delta * kron(sigma_x, sigma_0) + alpha * kron(sigma_z, k_x * sigma_y - k_y * sigma_x)",
    "A * kron(sigma_x, sigma_z) * k_x - A * kron(sigma_y, sigma_0) * k_y + (M - B * (k_x**2 + k_y**2)) * kron(sigma_z, sigma_0)",
    "(2 * t * (cos(k_x) + cos(k_y)) - mu) * sigma_z + Delta * (sin(k_x) * sigma_x + sin(k_y) * sigma_y)",
    "t_1 * Matrix([[0, 1 + exp(I*k_x)], [1 + exp(-I*k_x), 0]]) + t_2 * cos(k_x) * sigma_z",
    "m * kron(sigma_0, sigma_z) + (c_1 * k_x + c_2 * k_y**3) * kron(sigma_y, sigma_x) + c_3 * (k_x**2 - k_y**2) * eye(4)",
]


def parse_session(rng, rec):
    import qsymm
    s = gen.choice(rng, STRINGS)
    rec.note(session='parse', expr=s)
    H = qsymm.Model(s, momenta=gen.choice(rng, [('k_x', 'k_y', 'k_z'), ('k_x', 'k_y', 'k_z')]))
    H2 = H * 2 - H + H.zeros_like()
    H2 = H2.subs({'mu': 0.5, 'alpha': 1.5} if rng.random() < 0.5 else [('mu', sympy.Symbol('nu') + 1), ('B', 0)])
    H2 = H2.rotate_momenta(gen.rot3(rng.normal(size=3), rng.normal()) if 'cos' not in s and 'exp' not in s
                           else np.diag(rng.choice([-1, 1], 3)))
    n = H.shape[0]
    U = gen.unitary(rng, n)
    H3 = U @ H2 @ U.conj().T
    H3 = (H3 + H3.T().conj()) * 0.5
    H3.trace()
    HH = H3 @ H3 - H3 @ H3
    assert HH == {}
    f = H3.around(6).eliminate_zeros().lambdify()
    H3.tocsr().toarray()
    sp_model = H.tocsr() @ H.tocsr() + H.tocsr() * sympy.Symbol('q')
    sp_model.conj().T()
    H.evalf({sympy.Symbol(n): 0.3 for n in sorted({str(a) for k in H.keys() for a in k.atoms(sympy.Symbol)} - {'e'})})
    return 'parse %s' % s[:20]


def spin_generators(rng, dim, spin):
    """A random handful of symmetry operators of spin-s electrons."""
    import qsymm
    gens = []
    if rng.random() < 0.6:
        gens.append(qsymm.time_reversal(dim, spin=spin))
    if dim == 2:
        if rng.random() < 0.7:
            gens.append(qsymm.rotation(1 / int(rng.choice([2, 3, 4, 6])), spin=spin))
        if rng.random() < 0.5:
            gens.append(qsymm.mirror([1, 0], spin=spin))
    elif dim == 3:
        if rng.random() < 0.7:
            gens.append(qsymm.rotation(1 / int(rng.choice([2, 4])), gen.choice(rng, [[1, 0, 0], [0, 0, 1]]), spin=spin))
        if rng.random() < 0.4:
            gens.append(qsymm.rotation(1 / 3, [1, 1, 1], spin=spin))
        if rng.random() < 0.4:
            n = int(round(2 * spin + 1))
            gens.append(qsymm.inversion(3, U=np.eye(n)))
    else:
        gens.append(qsymm.inversion(1, U=np.diag((-1.)**np.arange(int(round(2 * spin + 1))))))
    return gens


def kdotp_session(rng, rec):
    import qsymm
    from qsymm import hamiltonian_generator as hg
    dim = int(rng.integers(1, 4))
    spin = gen.choice(rng, [1 / 2, 1 / 2, 1])
    gens = spin_generators(rng, dim, spin) or [qsymm.time_reversal(dim, spin=spin)]
    power = 2 if dim < 3 and spin < 1 else 1
    rec.note(session='kdotp', dim=dim, spin=spin, gens=gens)
    fam = qsymm.continuum_hamiltonian(gens, dim, power, prettify=bool(rng.random() < 0.5))
    hg.check_symmetry(fam, gens)
    if not fam:
        return 'kdotp empty'
    H = hg.hamiltonian_from_family(fam, tosympy=False)
    cand = qsymm.groups.generate_group({qsymm.PointGroupElement(g.R, g.conjugate, g.antisymmetry) for g in gens})
    if len(cand) <= 12:
        disc, cont = qsymm.symmetries(H, cand, continuous_rotations=bool(rng.random() < 0.5),
                                      prettify=bool(rng.random() < 0.5))
        for g in disc:
            repr(g), str(g)
            g.inv() * g
    hg.hamiltonian_from_family(fam, tosympy=True, nsimplify=False)
    return 'kdotp dim %d spin %s n %d' % (dim, spin, len(fam))


def bloch_session(rng, rec):
    import qsymm
    from qsymm import hamiltonian_generator as hg
    which = gen.choice(rng, ['square', 'graphene', 'chain', 'honeycomb bloch'])
    rec.note(session='bloch', which=which)
    if which == 'chain':
        norbs = {'a': 1, 'b': 1}
        g = [qsymm.groups.symmetry_from_permutation(-np.eye(1, dtype=int), {'a': 'b', 'b': 'a'}, tuple(norbs.items()))]
        if rng.random() < 0.5:
            g.append(qsymm.time_reversal(1, np.eye(2)))
        hop = [('a', 'b', [sympy.Rational(1, 2)])]
    elif which == 'square':
        norbs = {'s': 2}
        g = [qsymm.rotation(1 / 4, spin=1 / 2), qsymm.time_reversal(2, spin=1 / 2)]
        if rng.random() < 0.5:
            g.append(qsymm.mirror([1, 0], spin=1 / 2))
        hop = [('s', 's', [1, 0])]
    else:
        norbs = {'A': 1, 'B': 1}
        sympy_R = which == 'graphene'
        if sympy_R:
            R = sympy.ImmutableMatrix([[sympy.Rational(-1, 2), -sympy.sqrt(3) / 2], [sympy.sqrt(3) / 2, sympy.Rational(-1, 2)]])
            vec = [0, 1 / sympy.sqrt(3)]
        else:
            R = gen.rot2(2 * np.pi / 3)
            vec = [0., 1 / np.sqrt(3)]
        g = [qsymm.PointGroupElement(R, False, False, np.eye(2)), qsymm.time_reversal(2, np.eye(2))]
        if rng.random() < 0.5:
            g.append(qsymm.groups.symmetry_from_permutation(-np.eye(2, dtype=int), {'A': 'B', 'B': 'A'}, tuple(norbs.items())))
        hop = [('A', 'B', vec)]
    bm = which == 'honeycomb bloch' or (which == 'square' and bool(rng.random() < 0.5))
    dim = len(hop[0][-1])
    fam = qsymm.bloch_family(hop, g, tuple(norbs.items()), bloch_model=bm, prettify=bool(rng.random() < 0.5))
    hg.check_symmetry(fam, g)
    H = hg.hamiltonian_from_family(fam, tosympy=False)
    disc, cont = qsymm.symmetries(H)
    H.conj()
    (H + H) * 0.5 - H
    return 'bloch %s %s' % (which, bm)


def bdg_session(rng, rec):
    import qsymm
    dim = int(rng.integers(1, 3))
    spin = 1 / 2
    gens = spin_generators(rng, dim, spin) or [qsymm.time_reversal(dim, spin=spin)]
    sq = int(rng.choice([1, -1]))
    rec.note(session='bdg', gens=gens, sq=sq)
    Hs = qsymm.continuum_hamiltonian(gens, dim, 1)
    D = qsymm.continuum_pairing(gens, dim, 1, ph_square=sq, phases=rng.choice([1, -1], len(gens)).tolist())
    for d in D:
        B = np.kron(np.array([[0, 1], [0, 0]]), np.eye(2))
        full = qsymm.Model({k: np.block([[np.zeros((2, 2)), v], [np.zeros((2, 2)), np.zeros((2, 2))]]) for k, v in d.items()},
                           momenta=d.momenta)
        full = full + full.T().conj()
    return 'bdg dim %d n %d' % (dim, len(D))


def lattice_session(rng, rec):
    import qsymm
    from qsymm import groups as qg
    dim = int(rng.integers(1, 4))
    base = np.eye(dim)
    if dim > 1 and rng.random() < 0.4:
        base[:2, :2] = [[1, 0], [.5, np.sqrt(3) / 2]]
    if dim == 3 and rng.random() < 0.4:
        base = np.array([[0, 1, 1], [1, 0, 1], [1, 1, 0.]])
    base = base * np.array([1, 1, gen.choice(rng, [1, 1.3])])[:dim, None]
    periods = gen.unimodular(rng, dim, steps=2, size=1) @ base
    rec.note(session='lattice', periods=periods)
    G = qsymm.bravais_point_group(periods, tr=bool(rng.random() < 0.3), ph=bool(rng.random() < 0.2))
    els = sorted(G)
    for _ in range(20):
        g, h = els[int(rng.integers(len(els)))], els[int(rng.integers(len(els)))]
        g * h, g ** int(rng.integers(-3, 4)), str(g), repr(g)
        assert g * h in G
    if len(G) <= 12:
        qg.generate_subgroups(G)
    return 'lattice %d %d' % (dim, len(G))


def sparse_session(rng, rec):
    import qsymm
    n = int(rng.integers(2, 5))
    ks = gen.keys(rng, 3, ('k_x', 'k_y', 'k_z'), 'poly')
    H = qsymm.Model({k: gen.hermitian(rng, n) for k in ks})
    P = np.kron(np.eye(2), gen.unitary(rng, n))
    H2 = qsymm.Model({k: P @ np.kron(np.eye(2), v) @ P.conj().T for k, v in H.items()})
    rec.note(session='sparse', keys=ks)
    qsymm.symmetries(H2.tocsr(), sparse_linalg=False)
    qsymm.symmetries(H2, prettify=True)
    (H2.tocsr() @ H2.tocsr()).toarray() - H2 @ H2
    return 'sparse %d' % n


SESSIONS = dict(parse=parse_session, kdotp=kdotp_session, bloch=bloch_session, bdg=bdg_session,
                lattice=lattice_session, sparse=sparse_session)


def run(rng, rec, only=None):
    name = gen.choice(rng, list(only or SESSIONS))
    out = SESSIONS[name](rng, rec)
    rec.event('session ' + name)
    return out
