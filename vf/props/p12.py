"""P12: Operators from site permutations act as the stated site mapping."""
import itertools as it
from collections import OrderedDict

import numpy as np
import scipy.linalg as la
import sympy

from .. import ev, gen
from .p10 import spin, spin_rep

RULE = ('states are (number of sites, cycle type of the permutation, orbital numbers, form of the arguments, kind of lattice); '
        'blocks of the operator and the invariance of explicit hopping Hamiltonians are judged')
REQUIRED_EVENTS = ('cycle longer than two', 'unequal orbital numbers', 'space group product', 'invariant hopping Hamiltonian',
                   'changed Hamiltonian', 'antiunitary', 'rejected')
ASSUMPTIONS = ['sites related by the permutation have equal orbital numbers']


def names(rng, n):
    return gen.choice(rng, [['A', 'B', 'C', 'D', 'E', 'F'][:n], list(range(n)), [('s', i) for i in range(n)],
                            ['z', 'a', 'm', 'b', 'k', 'c'][:n], [3, 1, 4, 0, 5, 9][:n]])


def direct(rng, rec):
    from qsymm.groups import symmetry_from_permutation
    n = int(rng.integers(1, 7))
    sites = names(rng, n)
    # permutation by cycles of sites with equal orbital number
    order = list(rng.permutation(n))
    perm, norb, cyc = {}, {}, []
    while order:
        k = int(rng.integers(1, min(len(order), 4) + 1))
        c = [order.pop() for _ in range(k)]
        m = int(rng.integers(1, 4))
        for i, a in enumerate(c):
            perm[sites[a]] = sites[c[(i + 1) % k]]
            norb[sites[a]] = m
        cyc.append((k, m))
    spec_order = [sites[i] for i in rng.permutation(n)]
    mode = gen.choice(rng, ['none', 'dict', 'array', 'dict real'])
    if mode == 'array':
        m = next(iter(norb.values()))
        norb = {a: m for a in norb}
        onsite = gen.unitary(rng, m)
        act = {a: onsite for a in sites}
    elif mode == 'none':
        onsite, act = None, {a: np.eye(norb[a]) for a in sites}
    else:
        act = {a: gen.unitary(rng, norb[a]) if mode == 'dict' else gen.orthogonal(rng, norb[a]) for a in sites}
        onsite = act
    norbs = [(a, norb[a]) for a in spec_order]
    form = gen.choice(rng, ['tuple', 'odict', 'list'])
    arg = {'tuple': tuple(norbs), 'odict': OrderedDict(norbs), 'list': norbs}[form]
    c, a_ = bool(rng.random() < .4), bool(rng.random() < .4)
    d = int(rng.integers(0, 4))
    R = gen.choice(rng, [np.eye(d, dtype=int), -np.eye(d, dtype=int), gen.orthogonal(rng, d) if d else np.zeros((0, 0), int)])
    pitems = list(perm.items())
    perm = dict([pitems[i] for i in rng.permutation(n)])
    rec.note(perm=perm, norbs=norbs, mode=mode, onsite=onsite, R=R)
    dig = ev.digest(perm), ev.digest(arg), ev.digest(onsite)
    kw = {}
    if onsite is not None or rng.random() < .5:
        kw['onsite_action'] = onsite
    g = symmetry_from_permutation(R, perm, arg, antiunitary=c, antisymmetry=a_, **kw)
    rec.check((ev.digest(perm), ev.digest(arg), ev.digest(onsite)) == dig, 'arguments unchanged')
    off = dict(zip(spec_order, np.cumsum([0] + [norb[a] for a in spec_order])))
    N = sum(norb.values())
    want = np.zeros((N, N), complex)
    for a in sites:
        b = perm[a]
        want[off[b]:off[b] + norb[b], off[a]:off[a] + norb[a]] = act[a]
    rec.close(g.U, want, 'unitary part maps every site onto its image', tol=1e-12)
    # acting on a state that lives on one site
    a = gen.choice(rng, sites)
    psi = np.zeros(N, complex)
    v = rng.normal(size=norb[a]) + 1j * rng.normal(size=norb[a])
    psi[off[a]:off[a] + norb[a]] = v
    phi = g.U @ psi
    rec.close(phi[off[perm[a]]:off[perm[a]] + norb[a]], act[a] @ v, 'orbitals of a site go to the image site')
    rec.check(np.isclose(np.linalg.norm(phi), np.linalg.norm(v)), 'and nowhere else')
    rec.close(ev.Rfloat(g.R), np.asarray(R, float), 'spatial part')
    rec.check(bool(g.conjugate) is c and bool(g.antisymmetry) is a_, 'kind of the operator')
    if any(k > 2 for k, _ in cyc):
        rec.event('cycle longer than two')
    if len({m for _, m in cyc}) > 1:
        rec.event('unequal orbital numbers')
    if c:
        rec.event('antiunitary')
    rec.sig('direct', n, tuple(sorted(cyc)), mode, form, c, a_, d)


def lattice(rng):
    """name, lattice vectors (rows), point operations (R, t), site positions, exact or not"""
    a1, a2 = np.array([1., 0]), np.array([.5, np.sqrt(3) / 2])
    hexl = np.array([a1, a2])
    rots = lambda n: [gen.rot2(2 * np.pi * k / n) for k in range(n)]
    M = np.diag([-1., 1])
    which = gen.choice(rng, ['honeycomb', 'kagome', 'square', 'lieb', 'molecule3', 'molecule cube', 'chain', 'glide', 'checkerboard',
                             'triangular', 'bcc'])
    if which == 'honeycomb':
        c = (a1 + a2) / 3
        return which, hexl, [(r @ m, np.zeros(2)) for r in rots(6) for m in (np.eye(2), M)], np.array([c, -c])
    if which == 'kagome':
        return which, hexl, [(r @ m, np.zeros(2)) for r in rots(6) for m in (np.eye(2), M)], np.array([a1, a2, a2 - a1]) / 2
    if which == 'triangular':
        return which, hexl, [(r @ m, np.zeros(2)) for r in rots(6) for m in (np.eye(2), M)], np.zeros((1, 2))
    if which == 'square':
        return which, np.eye(2), [(r @ m, np.zeros(2)) for r in rots(4) for m in (np.eye(2), M)], np.zeros((1, 2))
    if which == 'lieb':
        return which, np.eye(2), [(r @ m, np.zeros(2)) for r in rots(4) for m in (np.eye(2), M)], np.array([[0, 0], [.5, 0], [0, .5]])
    if which == 'checkerboard':
        return which, np.eye(2), [(r @ m, np.zeros(2)) for r in rots(4) for m in (np.eye(2), M)], np.array([[.5, 0], [0, .5]])
    if which == 'molecule3':
        n = int(gen.choice(rng, [3, 4, 5, 6]))
        pos = np.array([r @ [1., 0] for r in rots(n)])
        return which, None, [(r @ m, np.zeros(2)) for r in rots(n) for m in (np.eye(2), np.diag([1., -1]))], pos
    if which == 'molecule cube':
        pos = np.concatenate([np.eye(3), -np.eye(3)])
        ops = [(gen.rot3([1, 1, 1], 2 * np.pi / 3), np.zeros(3)), (gen.rot3([0, 0, 1], np.pi / 2), np.zeros(3)), (-np.eye(3), np.zeros(3)),
               (np.diag([1, 1, -1.]), np.zeros(3)), (gen.rot3([1, 1, 0], np.pi), np.zeros(3))]
        return which, None, ops, pos
    if which == 'chain':
        x = float(rng.uniform(.1, .4))
        return which, np.eye(1), [(np.eye(1), np.zeros(1)), (-np.eye(1), np.zeros(1))], np.array([[x], [-x]])
    if which == 'glide':
        # rectangular lattice, glide (x, y) -> (x + 1/2, -y) and twofold rotation
        x, y = rng.uniform(.05, .2, 2)
        t = np.array([.5, 0])
        L = np.diag([1., 1.4])
        ops = [(np.eye(2), np.zeros(2)), (np.diag([1., -1]), t), (-np.eye(2), np.zeros(2)), (np.diag([-1., 1]), t)]
        return which, L, ops, np.array([[x, y], [.5 + x, -y], [-x, -y], [.5 - x, y]])
    L = np.array([[-1, 1, 1], [1, -1, 1], [1, 1, -1.]]) / 2
    ops = [(gen.rot3([1, 1, 1], 2 * np.pi / 3), np.zeros(3)), (gen.rot3([0, 0, 1], np.pi / 2), np.zeros(3)), (-np.eye(3), np.zeros(3)),
           (np.diag([1, 1, -1.]), np.zeros(3))]
    return which, L, ops, np.zeros((1, 3))


def image(L, pos, p):
    """index of the site equivalent to position p"""
    out = []
    for i, q in enumerate(pos):
        x = p - q
        if L is None:
            if np.allclose(x, 0, atol=1e-7):
                out.append(i)
        else:
            y = np.linalg.solve(L.T, x)
            if np.allclose(y, np.round(y), atol=1e-7):
                out.append(i)
    assert len(out) == 1, (p, out)
    return out[0]


def space_group(rng, rec):
    import qsymm
    from qsymm.groups import symmetry_from_permutation
    which, L, ops, pos = lattice(rng)
    d, n = pos.shape[1], len(pos)
    sites = names(rng, n)
    s = gen.choice(rng, [0, 0, 1 / 2, 1])
    m = int(round(2 * s + 1))
    norbs = tuple((sites[i], m) for i in range(n))
    T = la.expm(-1j * np.pi * spin(s)[1])
    pool = []
    for _ in range(3):
        R, t = ops[int(rng.integers(len(ops)))]
        c = bool(rng.random() < .3)
        act = spin_rep(R, s) if s else np.eye(1)
        if c:
            act = act @ T
        idx = [image(L, pos, R @ p + t) for p in pos]
        perm = {sites[i]: sites[idx[i]] for i in range(n)}
        form = np.round(R).astype(int) if np.allclose(R, np.round(R)) else R
        g = symmetry_from_permutation(form, perm, norbs, onsite_action=act if s or rng.random() < .5 else None, antiunitary=c)
        pool.append((g, R, t, c, act, idx))
    rec.note(lattice=which, pos=pos, s=s, ops=[(R, t, c) for _, R, t, c, _, _ in pool], sites=sites)
    # products represent the composed space group operations
    (g, R, t, c, A, p1), (h, Q, u, e, B, p2) = pool[:2]
    gh = g * h
    idx = [image(L, pos, R @ (Q @ p + u) + t) for p in pos]
    act = A @ (B.conj() if c else B)
    want = symmetry_from_permutation(R @ Q, {sites[i]: sites[idx[i]] for i in range(n)}, norbs, onsite_action=act, antiunitary=c != e)
    rec.close(gh.U, want.U, 'product of operators belongs to the composed operation', tol=1e-9)
    rec.check(gh == want, 'product of operators equals the composed operation')
    rec.event('space group product')
    # Hamiltonian of a hopping set generated by the operations
    a, b = int(rng.integers(n)), int(rng.integers(n))
    shift = np.zeros(d) if L is None else rng.integers(-1, 2, size=d) @ L
    vec = pos[b] + shift - pos[a]
    hop = [(a, b, vec, rng.normal(size=(m, m)) + 1j * rng.normal(size=(m, m)))]
    # close the set of hoppings under the generators, averaging over the group
    gens = pool
    table = {}

    def key(a, b, v):
        return (a, b) + tuple(np.round(v, 6) + 0.)
    terms = {}
    for _ in range(1):
        for a, b, v, M in hop:
            terms[key(a, b, v)] = (a, b, v, M)
            terms[key(b, a, -v)] = (b, a, -v, M.conj().T)

    def act_on(op, term):
        g, R, t, c, A, idx = op
        a, b, v, M = term
        N = M.conj() if c else M
        return idx[a], idx[b], R @ v, A @ N @ A.conj().T

    def total(ts):
        return {k: x for k, x in ts.items()}

    def add(acc, term, w=1.):
        k = key(*term[:3])
        if k in acc:
            acc[k] = acc[k][:3] + (acc[k][3] + w * term[3],)
        else:
            acc[k] = term[:3] + (w * term[3],)
    # enumerate the group of signed images of the set of terms by averaging until it is invariant
    els = [(np.eye(d), list(range(n)), np.eye(m), False)]
    front = list(els)

    def same(x, y):
        if x[1] != y[1] or x[3] != y[3] or not np.allclose(x[0], y[0], atol=1e-6):
            return False
        return abs(abs(np.trace(x[2].conj().T @ y[2])) - m) < 1e-6
    while front:
        new = []
        for x in front:
            for g_, R_, t_, c_, A_, p_ in gens:
                y = (R_ @ x[0], [p_[i] for i in x[1]], A_ @ (x[2].conj() if c_ else x[2]), c_ != x[3])
                if not any(same(y, z) for z in els):
                    els.append(y)
                    new.append(y)
        front = new
        if len(els) > 200:
            rec.skip('group too large')
    acc = {}
    for x in els:
        for term in terms.values():
            add(acc, act_on((None, x[0], None, x[3], x[2], x[1]), term), 1 / len(els))
    N = n * m
    data = {}
    ks = ['k_x', 'k_y', 'k_z'][:d]
    for a, b, v, M in acc.values():
        # amplitude from a to b: row b... the convention H_ab exp(i k (r_b - r_a)) is invariant either way
        big = np.zeros((N, N), complex)
        big[a * m:(a + 1) * m, b * m:(b + 1) * m] = M
        kk = qsymm.model.BlochCoeff(np.array(v), sympy.Integer(1))
        found = next((q for q in data if np.allclose(q[0], kk[0], atol=1e-6)), kk)
        data[found] = data.get(found, 0) + big
    H = qsymm.BlochModel(data, momenta=ks)
    for op in gens:
        g = op[0]
        r = g.apply(H)
        for p in ev.points(int(rng.integers(1 << 30)), 2):
            rec.close(ev.mev(r, p), ev.mev(H, p), 'Hamiltonian of the generated hoppings is invariant', tol=1e-7,
                      scale=10 * (1 + ev.mev_scale(H, p)))
        rec.check(r == H, 'transformed Hamiltonian equals the original')
        rec.event('invariant hopping Hamiltonian')
    # a single hopping is mapped to the image hopping
    a, b, v, M = hop[0]
    big = np.zeros((N, N), complex)
    big[a * m:(a + 1) * m, b * m:(b + 1) * m] = M
    K = qsymm.BlochModel({qsymm.model.BlochCoeff(np.array(v), sympy.Integer(1)): big}, momenta=ks)
    op = pool[2]
    a2, b2, v2, M2 = act_on(op, hop[0])
    big2 = np.zeros((N, N), complex)
    big2[a2 * m:(a2 + 1) * m, b2 * m:(b2 + 1) * m] = M2
    r = op[0].apply(K)
    for p in ev.points(int(rng.integers(1 << 30)), 2):
        ph = np.exp(1j * np.dot(v2, p.vec(ks)))
        rec.close(ev.mev(r, p), ph * big2, 'hopping is mapped to the image hopping', tol=1e-7)
    rec.event('changed Hamiltonian')
    rec.sig('space group', which, s, len(els), [o[3] for o in pool], n)


def rejected(rng, rec):
    from qsymm.groups import symmetry_from_permutation
    n = int(rng.integers(2, 5))
    sites = names(rng, n)
    norbs = [(a, 2) for a in sites]
    perm = dict(zip(sites, [sites[i] for i in rng.permutation(n)]))
    R = np.eye(2, dtype=int)
    how = gen.choice(rng, ['missing key', 'extra key', 'not a bijection', 'unknown image', 'orbital numbers', 'missing orbitals', 'extra orbitals'])
    if how == 'missing key':
        del perm[sites[0]]
    elif how == 'extra key':
        perm['other'] = sites[0]
    elif how == 'not a bijection':
        perm = {a: sites[0] for a in sites}
    elif how == 'unknown image':
        perm[sites[0]] = 'other'
    elif how == 'orbital numbers':
        perm = dict(zip(sites, sites[1:] + sites[:1]))
        i = int(rng.integers(n))
        norbs[i] = (norbs[i][0], 1)
    elif how == 'missing orbitals':
        norbs = norbs[1:]
    else:
        norbs = norbs + [('other', 2)]
    rec.note(how=how, perm=perm, norbs=norbs)
    for arg in (tuple(norbs), OrderedDict(norbs)):
        rec.raises(ValueError, lambda: symmetry_from_permutation(R, perm, arg), 'inconsistent input (%s)' % how)
    if n > 1:
        with_bad = {a: np.eye(3) for a in sites}
        good = dict(zip(sites, sites))
        rec.raises(ValueError, lambda: symmetry_from_permutation(R, good, tuple((a, 2) for a in sites), onsite_action=with_bad),
                   'onsite action of the wrong size')
    rec.event('rejected')
    rec.sig('rejected', how, n)


FAMILIES = {
    'direct': (direct, 3000, 30000),
    'space_group': (space_group, 500, 6000),
    'rejected': (rejected, 200, 1000),
}
