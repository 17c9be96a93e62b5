"""P10: Group and subgroup generation is closed, minimal and complete."""
import itertools as it

import numpy as np
import scipy.linalg as la
import sympy
import tinyarray as ta

from .. import ev, gen
from .p07 import Ref, S3

RULE = ('states are (kind of group, representation of R, with/without U, strictness, number of generators, order, number of '
        'subgroups); the returned set is compared with the closure computed on plain float matrices, '
        'multiplications are counted while the group is generated')
REQUIRED_EVENTS = ('strict group', 'exact irrational group', 'subgroup lattice', 'antiunitary group', 'predefined group',
                   'counted multiplications')
ASSUMPTIONS = ['generators of a finite group', 'at least one generator']
MAXORDER = 200


def spin(s):
    d = int(round(2 * s + 1))
    m = s - np.arange(d)
    Sz = np.diag(m)
    p = np.diag(np.sqrt(s * (s + 1) - m[1:] * (m[1:] + 1)), 1)
    return np.array([(p + p.T) / 2, (p - p.T) / 2j, Sz])


def spin_rep(R, s):
    """exp(-i n.S) of the proper part of an orthogonal matrix in up to three dimensions, with 2D embedded."""
    R = np.asarray(R, float)
    d = len(R)
    R3 = np.eye(3)
    R3[:d, :d] = R
    R3 = R3 * np.sign(np.linalg.det(R3))
    if np.allclose(R3, np.eye(3)):
        n = np.zeros(3)
    else:
        c = (np.trace(R3) - 1) / 2
        th = np.arccos(np.clip(c, -1, 1))
        if np.isclose(th, np.pi, atol=1e-6):
            th = np.pi
            w, v = np.linalg.eigh((R3 + R3.T) / 2)
            ax = v[:, np.argmax(w)]
        else:
            ax = np.array([R3[2, 1] - R3[1, 2], R3[0, 2] - R3[2, 0], R3[1, 0] - R3[0, 1]])
            ax /= np.linalg.norm(ax)
        n = th * ax
    return la.expm(-1j * np.tensordot(n, spin(s), 1))


class Table:
    """Set of Refs with vectorised comparison."""

    def __init__(self, phase):
        self.els, self.phase = [], phase
        self.n = 0

    def find(self, x):
        if not self.n:
            return []
        ok = (self.F[:self.n, 0] == x.c) & (self.F[:self.n, 1] == x.a)
        if x.R.size:
            ok &= np.max(np.abs(self.R[:self.n] - x.R), axis=(1, 2)) < 1e-6
        if self.phase and x.U is not None:
            ok &= np.abs(np.abs(np.einsum('nij,ij->n', self.U[:self.n].conj(), x.U)) - len(x.U)) < 1e-8
        return np.flatnonzero(ok)

    def add(self, x):
        if len(self.find(x)):
            return False
        if self.n == 0:
            self.F = np.zeros((16, 2), bool)
            self.R = np.zeros((16,) + x.R.shape)
            self.U = None if x.U is None else np.zeros((16,) + x.U.shape, complex)
        elif self.n == len(self.F):
            self.F, self.R = np.concatenate([self.F] * 2), np.concatenate([self.R] * 2)
            self.U = None if self.U is None else np.concatenate([self.U] * 2)
        self.F[self.n] = x.c, x.a
        self.R[self.n] = x.R
        if x.U is not None:
            self.U[self.n] = x.U
        self.els.append(x)
        self.n += 1
        return True


def closure(gens, phase, limit=MAXORDER * 3):
    """All products of the generators (finite), as a Table of Refs."""
    t = Table(phase)
    front = [g for g in gens if t.add(g)]
    gens = list(front)
    while front:
        new = []
        for a in front:
            for g in gens:
                p = a * g
                if t.add(p):
                    new.append(p)
            if t.n > limit:
                return None
        front = new
    return t


def signed_perm(rng, d):
    return np.eye(d, dtype=int)[rng.permutation(d)] * rng.choice([-1, 1], d)[:, None]


def exact_rotation(n, k=1, d=2):
    M = sympy.eye(d).as_mutable()
    phi = 2 * sympy.pi * k / n
    M[0, 0] = M[1, 1] = sympy.cos(phi)
    M[1, 0], M[0, 1] = sympy.sin(phi), -sympy.sin(phi)
    return sympy.ImmutableMatrix(M)


def spatial_gens(rng, rec):
    """kind, rep, list of (R object, orthogonal float version or None)"""
    kind = gen.choice(rng, ['signed', 'signed', 'hex', 'dihedral', 'onsite', 'lattice basis', 'axis', 'exact', 'exact3'])
    if kind == 'signed':
        d = int(rng.integers(1, 4))
        Rs = [signed_perm(rng, d) for _ in range(int(rng.integers(1, 4)))]
        rep = gen.choice(rng, ['int', 'float'])
        if rep == 'float' and d > 1:
            Q = gen.orthogonal(rng, d)
            Rs = [Q @ R @ Q.T for R in Rs]
        return kind, rep, [(R, R) for R in Rs]
    if kind == 'lattice basis':
        d = int(rng.integers(2, 4))
        A = gen.unimodular(rng, d, steps=3, size=1)
        Ai = np.round(np.linalg.inv(A)).astype(int)
        Rs = [signed_perm(rng, d) for _ in range(int(rng.integers(1, 3)))]
        return kind, 'int', [(A @ R @ Ai, R) for R in Rs]
    if kind == 'hex':
        d = int(rng.integers(2, 4))
        pool = [np.array([[1, -1], [1, 0]]), np.array([[0, -1], [1, -1]]), np.array([[0, 1], [1, 0]]), np.array([[-1, 0], [0, -1]]),
                np.array([[1, -1], [0, -1]])]
        B = np.array([[1, -.5], [0, np.sqrt(3) / 2]])
        out = []
        rep = gen.choice(rng, ['int', 'float', 'sympy'])
        Bs = sympy.Matrix([[1, -sympy.Rational(1, 2)], [0, S3 / 2]])
        for i in rng.choice(len(pool), int(rng.integers(1, 4)), replace=False):
            z = int(rng.choice([-1, 1]))
            R2 = pool[i]
            O2 = B @ R2 @ np.linalg.inv(B)
            E2 = sympy.simplify(Bs * sympy.Matrix(R2) * Bs.inv())
            if d == 3:
                R2, O2 = la.block_diag(R2, z), la.block_diag(O2, z)
                E2 = sympy.diag(E2, z)
            out.append(({'int': R2, 'float': O2, 'sympy': sympy.ImmutableMatrix(E2)}[rep], O2))
        return kind, rep, out
    if kind == 'dihedral':
        n = int(gen.choice(rng, [3, 4, 5, 6, 7, 8, 10, 12]))
        d = int(rng.integers(2, 4))
        R = np.eye(d)
        R[:2, :2] = gen.rot2(2 * np.pi * int(gen.choice(rng, [k for k in range(1, n) if np.gcd(k, n) == 1])) / n)
        M = np.eye(d)
        phi = rng.uniform(0, np.pi)
        v = np.array([np.cos(phi), np.sin(phi)] + [0] * (d - 2))
        M = M - 2 * np.outer(v, v)
        Rs = [R] + ([M] if rng.random() < .6 else []) + ([-np.eye(d)] if rng.random() < .3 else [])
        return kind, 'float', [(x, x) for x in Rs]
    if kind == 'axis':
        V = gen.orthogonal(rng, 3, 1)
        pool = [gen.rot3([1, 1, 1], 2 * np.pi / 3), gen.rot3([0, 0, 1], np.pi / 2), gen.rot3([1, 0, 0], np.pi), -np.eye(3),
                np.diag([1, 1, -1.]), gen.rot3([1, 1, 0], np.pi)]
        Rs = [V @ pool[i] @ V.T for i in rng.choice(len(pool), int(rng.integers(1, 4)), replace=False)]
        return kind, 'float', [(x, x) for x in Rs]
    if kind in ('exact', 'exact3'):
        d = 2 if kind == 'exact' else 3
        n = int(gen.choice(rng, [3, 4, 5, 6, 8, 12]))
        R = exact_rotation(n, int(gen.choice(rng, [k for k in range(1, n) if np.gcd(k, n) == 1])), d)
        Rs = [R]
        if rng.random() < .6:
            Rs.append(gen.choice(rng, [exact_rotation(int(gen.choice(rng, [2, 3, 4])), 1, d), sympy.ImmutableMatrix(sympy.diag(*([1, -1] + [1] * (d - 2))))]))
        if d == 3 and rng.random() < .4:
            Rs.append(np.diag(rng.choice([-1, 1], 3)))
        rec.event('exact irrational group')
        return kind, 'sympy', [(x, ev.Rfloat(x)) for x in Rs]
    d = int(rng.integers(0, 3))
    return kind, 'int', [(np.eye(d, dtype=int), np.eye(d, dtype=int)) for _ in range(int(rng.integers(1, 4)))]


def pauli_like(rng, n):
    X = np.roll(np.eye(n), 1, axis=0)
    Z = np.diag(np.exp(2j * np.pi * np.arange(n) / n))
    P = np.eye(n)[rng.permutation(n)]
    return gen.choice(rng, [X, Z, X @ Z, Z @ Z, P, np.eye(n)])


def draw_gens(rng, rec):
    kind, rep, Rs = spatial_gens(rng, rec)
    umode = gen.choice(rng, ['none', 'spin', 'spin', 'spin', 'pauli'])
    d = len(Rs[0][1])
    s = gen.choice(rng, [0, 1 / 2, 1 / 2, 1])
    n = int(round(2 * s + 1)) if umode == 'spin' else int(rng.integers(1, 4))
    if umode == 'pauli' and kind != 'onsite':
        umode = 'none'
    V = gen.unitary(rng, n)
    strict = bool(umode != 'none' and rng.random() < .6)
    out = []
    tr_p = gen.choice(rng, [0, 0, .4])
    an_p = gen.choice(rng, [0, 0, .3])
    UT = la.expm(-1j * np.pi * spin(s)[1])
    for R, O in Rs:
        c, a = bool(rng.random() < tr_p), bool(rng.random() < an_p)
        if umode == 'none':
            U = None
        elif umode == 'spin':
            U = spin_rep(O, s) if d else np.eye(n)
            U = V @ U @ UT @ V.T if c else V @ U @ V.conj().T
            U = U * np.exp(1j * rng.uniform(0, 6)) if rng.random() < .3 else U
        else:
            U = pauli_like(rng, n)
            U = U @ U.T if c and rng.random() < .5 else U
        out.append((R, c, a, U))
    if rng.random() < .3:
        out.append((np.eye(d, dtype=int), True, bool(rng.random() < .3), None if umode == 'none' else
                    V @ UT @ V.T if umode == 'spin' else np.eye(n)))
    return kind, rep, umode, strict, out


def make(gens, strict, rng):
    import qsymm
    els = []
    for R, c, a, U in gens:
        els.append((qsymm.PointGroupElement(R, c, a, None if U is None else U.copy(), _strict_eq=strict),
                    Ref(ev.Rfloat(R), c, a, None if U is None else np.asarray(U, complex))))
    return els


class Counter:
    def __init__(self):
        import qsymm
        self.P = qsymm.PointGroupElement
        self.n = 0

    def __enter__(self):
        self.orig, self.eq = self.P.__mul__, self.P.__eq__
        self.inside = False
        me = self

        def mul(x, y):
            me.n += not me.inside
            return me.orig(x, y)

        def eq(x, y):
            # strict comparison multiplies operators itself
            old, me.inside = me.inside, True
            try:
                return me.eq(x, y)
            finally:
                me.inside = old
        self.P.__mul__, self.P.__eq__ = mul, eq
        return self

    def __exit__(self, *exc):
        self.P.__mul__, self.P.__eq__ = self.orig, self.eq


def group(rng, rec):
    import qsymm
    from qsymm.groups import generate_group
    kind, rep, umode, strict, gens = draw_gens(rng, rec)
    els = make(gens, strict, rng)
    rec.note(kind=kind, rep=rep, umode=umode, strict=strict, gens=gens)
    ref = closure([r for _, r in els], strict)
    if ref is None or ref.n > MAXORDER:
        rec.skip('group too large')
    full = ref
    if umode != 'none' and not strict:
        full = closure([r for _, r in els], True)
        if full is None:
            rec.skip('projective group too large')
    order = rng.permutation(len(els))
    inp = [els[i][0] for i in order]
    cont = gen.choice(rng, ['set', 'set', 'list'])
    arg = set(inp) if cont == 'set' else list(inp)
    before = list(arg), [ev.digest(x) for x in arg]
    with Counter() as cnt:
        G = generate_group(arg)
    rec.check(isinstance(G, set), 'result is a set')
    rec.check(list(arg) == before[0] and [ev.digest(x) for x in arg] == before[1], 'generators are unchanged')
    rec.check(len(G) == ref.n, 'order of the group', got=len(G), expected=ref.n)
    ngen = len(set(inp))
    rec.check(cnt.n <= 4 * (len(G) + 2) * (ngen + 2) + 40, 'number of multiplications is proportional to order times generators',
              multiplications=cnt.n, order=len(G), gens=ngen)
    rec.event('counted multiplications', cnt.n)
    # exactly the products of the generators, no duplicates
    G = list(G)
    GR = [Ref(ev.Rfloat(g.R), bool(g.conjugate), bool(g.antisymmetry), g.U) for g in G]
    hit = [0] * ref.n
    for g in GR:
        idx = ref.find(g)
        rec.check(len(idx) > 0, 'element is a product of the generators', g=vars(g))
        hit[idx[0]] += 1
    rec.check(all(h == 1 for h in hit), 'every product appears exactly once', hits=hit)
    if umode != 'none':
        for g in GR:
            rec.check(g.U is not None and len(full.find(g)) > 0, 'unitary part is that of a product of generators',
                      g=vars(g))
    else:
        rec.check(all(g.U is None for g in G), 'no unitary part')
    S = set(G)
    # generators, identity, inverses, closure through qsymm's own operations
    rec.check(all(x in S for x, _ in els), 'generators are in the group')
    rec.check(G[0].identity() in S, 'identity is in the group')
    for g in (G if len(G) <= 24 else [G[int(i)] for i in rng.integers(len(G), size=24)]):
        rec.check(g.inv() in S, 'inverse is in the group', g=repr(g))
        h = G[int(rng.integers(len(G)))]
        rec.check(g * h in S, 'group is closed', g=repr(g), h=repr(h))
    again = generate_group(set(G) if len(G) <= 24 else {els[i][0] for i in rng.permutation(len(els))})
    rec.check(len(again) == len(S) and all(g in S for g in again) and (strict or again == S), 'group generates itself')
    if strict:
        rec.event('strict group')
    if any(g[1] for g in gens):
        rec.event('antiunitary group')
    rec.sig('group', kind, rep, umode, strict, len(gens), ref.n, full.n, cont)


def subgroup_oracle(n, table, ident):
    """All subgroups of a group given by its multiplication table, as frozensets of indices."""
    def close(S):
        S = set(S)
        front = list(S)
        while front:
            x = front.pop()
            for y in list(S):
                for p in (table[x][y], table[y][x]):
                    if p not in S:
                        S.add(p)
                        front.append(p)
        return frozenset(S)
    cyc = {close({i}) for i in range(n)}
    subs = set(cyc)
    front = list(cyc)
    while front:
        s = front.pop()
        for c in cyc:
            if not c <= s:
                t = close(s | c)
                if t not in subs:
                    subs.add(t)
                    front.append(t)
    return subs


def subgroups(rng, rec):
    import qsymm
    from qsymm.groups import generate_group, generate_subgroups
    for _ in range(20):
        kind, rep, umode, strict, gens = draw_gens(rng, rec)
        strict = False
        els = make(gens, strict, rng)
        ref = closure([r for _, r in els], False, 40)
        if ref is not None and ref.n <= 24:
            break
    else:
        rec.skip('no small group')
    rec.note(kind=kind, rep=rep, gens=gens, order=ref.n)
    G = generate_group({x for x, _ in els})
    rec.check(len(G) == ref.n, 'order of the group')
    G = list(G)
    GR = [Ref(ev.Rfloat(g.R), bool(g.conjugate), bool(g.antisymmetry), None) for g in G]

    T = Table(False)
    for x in GR:
        rec.check(T.add(x), 'group without duplicates')

    def index(r):
        return int(T.find(r)[0])
    table = [[index(a * b) for b in GR] for a in GR]
    ident = index(GR[0].one())
    want = subgroup_oracle(len(G), table, ident)
    group = {G[i] for i in rng.permutation(len(G))}
    if rng.random() < .3:
        group = frozenset(group)
    dig = sorted(map(repr, map(ev.digest, group)))
    subs = generate_subgroups(group)
    rec.check(sorted(map(repr, map(ev.digest, group))) == dig, 'group unchanged')
    got = {}
    for sg, gn in subs.items():
        idx = frozenset(index(Ref(ev.Rfloat(g.R), bool(g.conjugate), bool(g.antisymmetry), None)) for g in sg)
        rec.check(len(idx) == len(sg), 'subgroup without duplicates')
        rec.check(idx not in got, 'every subgroup is listed once')
        got[idx] = gn
        rec.check(set(gn) <= set(sg), 'generators of a subgroup belong to it')
        rec.check(generate_group(set(gn)) == set(sg), 'listed generators generate precisely the subgroup',
                  gens=[repr(g) for g in gn])
    rec.check(set(got) == want, 'all subgroups are found', missing=len(want - set(got)), extra=len(set(got) - want), expected=len(want))
    rec.check(frozenset([ident]) in got and frozenset(range(len(G))) in got, 'trivial and full subgroup')
    rec.event('subgroup lattice')
    rec.sig('subgroups', kind, rep, len(G), len(want))


def predefined(rng, rec):
    import qsymm
    from qsymm.groups import generate_group, square, cubic, hexagonal, generate_subgroups
    which = gen.choice(rng, ['square', 'hexagonal2', 'hexagonal3', 'cubic', 'icosahedral'])
    tr, ph = bool(rng.random() < .4), bool(rng.random() < .3)
    rec.note(which=which, tr=tr, ph=ph)
    with Counter() as cnt:
        if which == 'square':
            G, n = square(tr, ph), 8
        elif which == 'cubic':
            G, n = cubic(tr, ph), 48
        elif which == 'hexagonal2':
            G, n = hexagonal(2, tr, ph, sympy_R=bool(rng.random() < .5)), 12
        elif which == 'hexagonal3':
            G, n = hexagonal(3, tr, ph, sympy_R=bool(rng.random() < .5)), 24
        else:
            tr = ph = False
            phi = (1 + sympy.sqrt(5)) / 2
            C5 = sympy.Matrix([[phi / 2, -sympy.Rational(1, 2), 0], [0, 0, 0], [0, 0, 0]])
            h = sympy.Rational(1, 2)
            C5 = sympy.ImmutableMatrix([[h, -phi / 2, (phi - 1) / 2], [phi / 2, (phi - 1) / 2, -h], [(phi - 1) / 2, h, phi / 2]])
            M = np.array(C5).astype(float)
            assert np.allclose(M @ M.T, np.eye(3)) and np.allclose(np.linalg.matrix_power(M, 5), np.eye(3)), M
            exact = bool(rng.random() < .4)
            P = qsymm.PointGroupElement
            gens = {P(C5 if exact else M), P(np.array([[0, 0, 1], [1, 0, 0], [0, 1, 0]]))}
            inv = bool(rng.random() < .4)
            if inv:
                gens.add(qsymm.inversion(3))
            G, n = generate_group(gens), 120 if inv else 60
    want = n * (2 if tr else 1) * (2 if ph else 1)
    rec.check(len(G) == want, 'order of the %s group' % which, got=len(G), expected=want)
    rec.check(cnt.n <= 4 * (len(G) + 2) * 8 + 40, 'number of multiplications is proportional to order times generators',
              multiplications=cnt.n, order=len(G))
    rec.event('counted multiplications', cnt.n)
    L = list(G)
    for _ in range(30):
        g, h = L[int(rng.integers(len(L)))], L[int(rng.integers(len(L)))]
        rec.check(g * h in G and g.inv() in G, 'group is closed')
    A = np.array([ev.Rfloat(g.R) for g in L])
    rec.close(np.einsum('gij,gkj->gik', A, A), np.broadcast_to(np.eye(A.shape[1]), A.shape), 'orthogonal elements')
    rec.event('predefined group')
    rec.sig('predefined', which, tr, ph, len(L))


def big_subgroups(rng, rec):
    """Known subgroup counts of larger groups."""
    import qsymm
    from qsymm.groups import generate_group, generate_subgroups, square, hexagonal, cubic
    which = gen.choice(rng, ['O_h', 'O', 'T', 'T_d', 'D6h', 'D6', 'D4 x T', 'Z2^4', 'D4 x T x P'])
    P = qsymm.PointGroupElement
    C3, C4, C2, I = (np.array(x) for x in ([[0, 0, 1], [1, 0, 0], [0, 1, 0]], [[0, -1, 0], [1, 0, 0], [0, 0, 1]],
                                          [[-1, 0, 0], [0, -1, 0], [0, 0, 1]], -np.eye(3, dtype=int)))
    G, n = {'O_h': (lambda: generate_group({P(C3), P(C4), P(I)}), 98), 'O': (lambda: generate_group({P(C3), P(C4)}), 30),
            'T': (lambda: generate_group({P(C3), P(C2)}), 10), 'T_d': (lambda: generate_group({P(C3), P(-C4)}), 30),
            'D6h': (lambda: hexagonal(3, False, False, sympy_R=False), 54), 'D6': (lambda: hexagonal(2, False, False), 16),
            'D4 x T': (lambda: square(True, False), 35),
            'D4 x T x P': (lambda: square(True, True), 158),
            'Z2^4': (lambda: generate_group({P(np.diag([-1, 1, 1])), P(np.diag([1, -1, 1])), P(np.diag([1, 1, -1])), P(np.eye(3, dtype=int), True)}), 67)}[which]
    G = G()
    rec.note(which=which)
    subs = generate_subgroups(G)
    rec.check(len(subs) == n, 'number of subgroups of %s' % which, got=len(subs), expected=n)
    keys = list(subs)
    for i in rng.integers(len(keys), size=12):
        k = keys[int(i)]
        rec.check(generate_group(set(subs[k])) == set(k), 'listed generators generate precisely the subgroup')
        rec.check(len(G) % len(k) == 0, 'order of the subgroup divides that of the group')
    rec.event('subgroup lattice')
    rec.sig('big', which, len(G))


FAMILIES = {
    'group': (group, 700, 12000),
    'subgroups': (subgroups, 200, 3000),
    'predefined': (predefined, 60, 400),
    'big_subgroups': (big_subgroups, 24, 120),
}
