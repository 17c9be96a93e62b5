"""Random Hermitian families with hidden symmetries, and independent decisions
about which operations are symmetries (plain numpy linear algebra)."""
import itertools as it

import numpy as np
import sympy

from . import ev, gen
from .core import Skip

MOM = {0: (), 1: ('k_x',), 2: ('k_x', 'k_y'), 3: ('k_x', 'k_y', 'k_z')}


# -- oracles -----------------------------------------------------------------

def ratio_nullspace(A, lo=1e-8, hi=1e-5, floor=0.):
    """Null space of A (rows), inconclusive if a singular value is in between."""
    n = A.shape[1]
    if A.shape[0] == 0:
        return np.eye(n, dtype=complex)
    if A.shape[0] > n:
        A = np.linalg.qr(A, mode='r')
    _, s, vh = np.linalg.svd(A, full_matrices=True)
    smax = max(floor, s[0] if len(s) else 0.)
    if smax == 0:
        return np.eye(n, dtype=complex)
    s = np.concatenate((s, np.zeros(n - len(s)))) / smax
    if np.any((s > lo) & (s < hi)):
        raise Skip('rank of the linear system is not clear cut')
    return vh[s <= lo].conj()


def intertwiners(HL, HR):
    """Basis of all X with X HL[i] = HR[i] X."""
    n = HL[0].shape[0]
    one = np.eye(n)
    rows = [np.kron(one, l.T) - np.kron(r, one) for l, r in zip(HL, HR)]
    scale = max(max(np.max(np.abs(x)) for x in HL), max(np.max(np.abs(x)) for x in HR))
    A = np.vstack(rows)
    if np.max(np.abs(A)) < 1e-10 * max(scale, 1e-300):
        return np.eye(n * n).reshape(n * n, n, n)
    return ratio_nullspace(A).reshape(-1, n, n)


def sample_points(model, rng, extra, unknowns):
    # every generic point reduces the solution space until only the solutions
    # valid everywhere are left
    n = min(len(model) + extra, unknowns + 3)
    return [ev.Point(int(rng.integers(1 << 30)), lo=.3, hi=1.6) for _ in range(n)]


class Tester:
    """Decides which operations are symmetries of a Hermitian model."""

    def __init__(self, model, rng):
        self.model = model
        # a candidate can double the number of independent functions
        self.pts = sample_points(model, rng, len(model) + 4, model.shape[0]**2)
        self.rng = rng
        self.H = [ev.mev(model, p) for p in self.pts]
        self.scale = max([1e-12] + [np.max(np.abs(h)) for h in self.H])

    def moved(self, g):
        import qsymm
        g0 = qsymm.PointGroupElement(g.R, g.conjugate, g.antisymmetry, None)
        return [ev.apply_oracle(g0, self.model, p) for p in self.pts]

    def exists(self, g):
        """Is there a unitary U with U H'(k) = H(k) U for the whole family?"""
        HL, HR = self.moved(g), self.H
        # a necessary condition which is cheap to decide
        for l, r in zip(HL, HR):
            d = np.max(np.abs(np.linalg.eigvalsh((l + l.conj().T) / 2) - np.linalg.eigvalsh((r + r.conj().T) / 2)))
            if d > 1e-3 * self.scale:
                return False
        X = intertwiners(HL, HR)
        if not len(X):
            return False
        conds = []
        for _ in range(3):
            c = self.rng.normal(size=len(X)) + 1j * self.rng.normal(size=len(X))
            s = np.linalg.svd(np.tensordot(c, X, 1), compute_uv=False)
            conds.append(s[-1] / s[0])
        if max(conds) > 1e-4:
            return True
        if max(conds) < 1e-8:
            return False
        raise Skip('invertibility of the intertwiner is not clear cut')

    def holds(self, rec, g, msg, tol=1e-6):
        """The operator g (with unitary part) leaves the family invariant."""
        U = np.asarray(g.U, dtype=complex)
        n = self.model.shape[0]
        rec.check(U.shape == (n, n), msg + ': shape of the unitary part', U=U.shape)
        rec.close(U @ U.conj().T, np.eye(n), msg + ': unitary part is unitary', tol=1e-7)
        for h, p in zip(self.H, self.pts):
            rec.close(ev.apply_oracle(g, self.model, p), h, msg + ': invariant at all momenta and parameters',
                      scale=max(10., 10 * self.scale), tol=tol, g=repr(g))


def commutant_dim(mats):
    """Dimension of the space of matrices that commute with all the given Hermitian ones."""
    return len(intertwiners(mats, mats))


def closure(rows):
    """Closure of abstract operations [(R, c, a)] (float arrays)."""
    ops = []

    def add(R, c, a):
        for S, d, b in ops:
            if c == d and a == b and np.max(np.abs(R - S), initial=0) < 1e-6:
                return False
        ops.append((R, c, a))
        return True
    for r in rows:
        add(*r)
    gens = list(ops)
    i = 0
    while i < len(ops):
        for g in gens:
            R, c, a = ops[i]
            add(R @ g[0], c != g[1], a != g[2])
            if len(ops) > 400:
                raise Skip('group too large')
        i += 1
    return ops


def abstract(g):
    return ev.Rfloat(g.R).reshape(g.R.shape), bool(g.conjugate), bool(g.antisymmetry)


def contains(ops, x):
    return any(x[1] == c and x[2] == a and np.max(np.abs(x[0] - R), initial=0) < 1e-5 for R, c, a in ops)


# -- random Hermitian families -------------------------------------------------

def hermitian_terms(rng, n, dim, kind, nterms, power=2):
    """Model with Hermitian values at real momenta."""
    import qsymm
    momenta = MOM[dim]
    out = qsymm.Model({}, momenta=momenta, shape=(n, n), format=np.ndarray)
    if kind == 'poly':
        seen = []
        for _ in range(nterms):
            k = gen.monomial(rng, momenta, gen.PARAMS[:4], max_power=power, p_par=.4)
            if k not in seen:
                seen.append(k)
                out = out + qsymm.Model({k: gen.hermitian(rng, n, gen.choice(rng, ['complex', 'complex', 'real']))},
                                        momenta=momenta)
        return out
    for _ in range(nterms):
        hop = [int(x) for x in rng.integers(-1, 2, dim)]
        par = gen.monomial(rng, (), gen.PARAMS[:4], p_par=.4)
        f = sympy.Integer(1)
        for x, k in zip(hop, momenta):
            f *= gen.e_sym() ** (sympy.I * x * gen.sym(k))
        M = rng.normal(size=(n, n)) + 1j * rng.normal(size=(n, n))
        if rng.random() < .3:
            M = M.real.astype(complex)
        t = qsymm.Model({par * f: M}, momenta=momenta) if any(hop) else qsymm.Model({par: M}, momenta=momenta)
        out = out + t + t.T().conj()
    return out


def exact2(n):
    c, s = {3: (sympy.Rational(-1, 2), sympy.sqrt(3) / 2), 4: (0, 1), 6: (sympy.Rational(1, 2), sympy.sqrt(3) / 2),
            2: (-1, 0)}[n]
    return sympy.ImmutableMatrix([[c, -s], [s, c]])


def point_group(rng, dim, exact):
    """Generators of spatial operations: list of matrices, all of one kind of
    exactness ('int', 'sympy', 'float')."""
    if dim == 0:
        return [], 'int'
    if dim == 1:
        return ([-np.eye(1, dtype=int)] if rng.random() < .7 else []), 'int'
    if dim == 2:
        which = gen.choice(rng, ['C2', 'C4', 'M', 'C4v', 'C3', 'C6', 'C3v', 'P6', 'trivial', 'float'])
        m = np.diag([-1, 1])
        if which == 'trivial':
            return [], 'int'
        if which == 'P6':   # hexagonal group in lattice coordinates: integer and not orthogonal
            return [np.array([[1, -1], [1, 0]])] + ([np.array([[0, 1], [1, 0]])] if rng.random() < .5 else []), 'int'
        if which in ('C3', 'C6', 'C3v'):
            n = 6 if which == 'C6' else 3
            mir = [m] if which == 'C3v' or rng.random() < .2 else []
            if exact:
                return [exact2(n)] + [sympy.ImmutableMatrix(x) for x in mir], 'sympy'
            return [gen.rot2(2 * np.pi / n)] + mir, 'float'
        if which == 'float' and not exact:
            # entries that are nearly zero would make some terms nearly vanish
            V = gen.rot2(rng.uniform(.2, .55) + np.pi / 2 * rng.integers(4))
            return [V @ x @ V.T for x in (np.diag([-1., 1.]),)], 'float'
        return {'C2': [-np.eye(2, dtype=int)], 'C4': [np.array([[0, -1], [1, 0]])], 'M': [m], 'float': [m],
                'C4v': [np.array([[0, -1], [1, 0]]), m]}[which], 'int'
    which = gen.choice(rng, ['P', 'D2', 'C4z', 'T', 'C3z', 'Mz', 'perm'])
    inv = [-np.eye(3, dtype=int)] if rng.random() < .3 else []
    if which == 'P':
        return [-np.eye(3, dtype=int)], 'int'
    if which == 'D2':
        return [np.diag([1, -1, -1]), np.diag([-1, -1, 1])] + inv, 'int'
    if which == 'C4z':
        return [np.array([[0, -1, 0], [1, 0, 0], [0, 0, 1]])] + inv, 'int'
    if which == 'T':
        return [np.diag([1, -1, -1]), np.array([[0, 0, 1], [1, 0, 0], [0, 1, 0]])], 'int'
    if which == 'perm':
        return [np.array([[0, 0, 1], [1, 0, 0], [0, 1, 0]])] + inv, 'int'
    if which == 'Mz':
        return [np.diag([1, 1, -1])] + inv, 'int'
    if exact:
        return [sympy.ImmutableMatrix(sympy.diag(exact2(3), 1))], 'sympy'
    return [gen.rot3([0, 0, 1], 2 * np.pi / 3)] + [x.astype(float) for x in inv], 'float'


def one_like(gens, dim):
    if gens and isinstance(gens[0], sympy.MatrixBase):
        return sympy.ImmutableMatrix(sympy.eye(dim))
    return np.eye(dim, dtype=int) if not gens or gens[0].dtype.kind == 'i' else np.eye(dim)


def candidate_group(rng, dim, exact, limit=48):
    """A closed set of candidates (PointGroupElement without unitary part)."""
    import qsymm
    while True:
        gens, kind = point_group(rng, dim, exact)
        one = one_like(gens, dim)
        ops = [qsymm.PointGroupElement(R, bool(rng.random() < .15), bool(rng.random() < .12)) for R in gens]
        u = rng.random()
        if u < .75:
            ops.append(qsymm.PointGroupElement(one, True, False))
        if u < .35 or u > .9:
            ops.append(qsymm.PointGroupElement(one, bool(rng.random() < .5), True))
        if not ops:
            ops.append(qsymm.PointGroupElement(one, False, False))
        n = len(closure([abstract(g) for g in ops]))
        if n <= limit:
            break
    G = qsymm.groups.generate_group(set(ops))
    if len(G) != n:
        # group generation itself is the subject of P10
        raise Skip('candidates do not form the expected group')
    return sorted(G), ops, kind


# representation used for symmetrising: spin s times two-dimensional particle-hole space

def rep_space(rng, dim, anti):
    from .props.p10 import spin
    s = gen.choice(rng, [0, 0, .5, .5, 1])
    S = spin(s)
    ns = int(round(2 * s + 1))
    orb = int(rng.choice([1, 1, 2]))
    tau = 2 if anti else 1
    return s, ns, orb, tau


def rep(g, dim, s, orb, tau, chars):
    """Unitary part of operation g in the representation space (projective)."""
    from .props.p10 import spin_rep, spin
    R = ev.Rfloat(g.R).reshape(dim, dim)
    n = int(round(2 * s + 1))
    if s and not np.allclose(R @ R.T, np.eye(dim), atol=1e-9):
        raise Skip('operation is not orthogonal')
    R3 = np.eye(3)
    if dim == 1:
        R3[0, 0] = R[0, 0]
    elif dim:
        R3[:dim, :dim] = R
    det = np.linalg.det(R3)
    D = spin_rep(R3, s) if s else np.eye(1, dtype=complex)
    if s and g.conjugate != False:
        # time reversal: exp(-i pi S_y)
        import scipy.linalg as la
        D = D @ la.expm(-1j * np.pi * spin(s)[1])
    O = np.diag([1., chars if det < 0 else 1.][:orb]).astype(complex)
    T = np.eye(tau, dtype=complex)
    if g.antisymmetry:
        T = np.array([[0, 1], [1, 0]], complex)
    return np.kron(np.kron(T, O), D)


def symmetrized(rng, dim, kind, gens, power):
    """Model invariant under the group generated by `gens` acting in some
    representation; returns it with the list of operators used."""
    import qsymm
    anti = any(g.antisymmetry for g in gens)
    s, ns, orb, tau = rep_space(rng, dim, anti)
    chars = int(rng.choice([1, -1]))
    n = ns * orb * tau
    ops = sorted(qsymm.groups.generate_group({qsymm.PointGroupElement(g.R, g.conjugate, g.antisymmetry) for g in gens})) if gens else []
    us = [qsymm.PointGroupElement(g.R, g.conjugate, g.antisymmetry, rep(g, dim, s, orb, tau, chars)) for g in ops]
    H = hermitian_terms(rng, n, dim, kind, int(rng.integers(1, 4)), power)
    if us:
        H = sum((g.apply(H) for g in us), H.zeros_like()) * (1. / len(us))
    return H


def direct_sum(models, mult, W):
    """W (sum_s model_s x 1_mult) W^dagger"""
    import qsymm
    sizes = [m.shape[0] * k for m, k in zip(models, mult)]
    N = sum(sizes)
    keys = {}
    for i, (m, k) in enumerate(zip(models, mult)):
        o = sum(sizes[:i])
        for key, val in m.items():
            M = keys.setdefault(key, np.zeros((N, N), complex))
            M[o:o + sizes[i], o:o + sizes[i]] += np.kron(val, np.eye(k))
    return qsymm.Model({k: W @ v @ W.conj().T for k, v in keys.items()}, momenta=models[0].momenta)


def basis_change(rng, N):
    u = rng.random()
    if u < .5:
        return gen.unitary(rng, N)
    if u < .7:
        return gen.orthogonal(rng, N).astype(complex)
    if u < .85:
        return np.eye(N)[rng.permutation(N)].astype(complex)
    return np.eye(N, dtype=complex)


def commutant_dimension(H):
    """Number of linearly independent matrices which commute with all terms of a model."""
    n = H.shape[0]
    K = 0
    for v in H.values():
        v = np.asarray(v) / np.max(np.abs(v))
        A = np.kron(v, np.eye(n)) - np.kron(np.eye(n), v.T)
        K = K + A.conj().T @ A
    return int(np.sum(np.linalg.eigvalsh(K) < 1e-9))


def system(rng, rec, nmax=8, dims=(0, 1, 2, 2, 2, 3), kinds=('poly', 'poly', 'bloch'), cand=None):
    """-> model (Model, dense), candidates (closed list), description"""
    import qsymm
    dim = int(gen.choice(rng, dims))
    kind = gen.choice(rng, kinds) if dim else 'poly'
    exact = kind == 'bloch' or bool(rng.random() < .3)
    C, gens, rk = cand or candidate_group(rng, dim, exact)
    power = 2 if dim < 3 else 1
    for attempt in range(6):
        sectors, mult = [], []
        for _ in range(int(gen.choice(rng, [1, 1, 2, 2, 3]))):
            sub = [g for g in gens if rng.random() < .7]
            try:
                h = symmetrized(rng, dim, kind, sub, power)
            except Skip:
                h = hermitian_terms(rng, int(rng.integers(1, 4)), dim, kind, 2, power)
            if not h or max(np.max(np.abs(v)) for v in h.values()) < 1e-9:
                continue
            m = int(gen.choice(rng, [1, 1, 1, 1, 2, 2, 3]))
            sectors.append(h)
            mult.append(m)
            u = rng.random()
            if u < .35 and len(C) > 1:
                # images under an operation: sectors exchanged by it
                g = C[int(rng.integers(len(C)))]
                cur = h
                o, x = 1, g
                while not x == x.identity() and o < 6:
                    o, x = o + 1, x * g
                for _ in range(max(1, o - 1) if rng.random() < .6 and h.shape[0] * m * o <= nmax else int(rng.integers(1, 3))):
                    g2 = qsymm.PointGroupElement(g.R, g.conjugate, g.antisymmetry, gen.unitary(rng, h.shape[0]))
                    cur = g2.apply(cur)
                    sectors.append(cur)
                    mult.append(m if rng.random() < .85 else m % 3 + 1)
                rec.event('sectors exchanged by an operation')
        N = sum(m.shape[0] * k for m, k in zip(sectors, mult))
        if 0 < N <= nmax:
            break
    else:
        rec.skip('no system of acceptable size')
    H = direct_sum(sectors, mult, basis_change(rng, N))
    scale = max(np.max(np.abs(v)) for v in H.values())
    H = qsymm.Model({k: v for k, v in H.items() if np.max(np.abs(v)) > 1e-7 * scale}, momenta=H.momenta)
    if N > 8 and commutant_dimension(H) > 82:
        # the time of the search grows with the sixth power of the size, 12 equal levels take minutes
        rec.skip('too many conserved quantities')
    desc = (dim, kind, rk, len(C), tuple(m.shape[0] for m in sectors), tuple(mult))
    return H, C, desc
