"""P20: manipulation of families preserves or projects the span as documented."""
import contextlib
import io

import numpy as np
import sympy

from .. import ev, gen, symm, fam
from . import p17, p19

RULE = ('states are (operation, kind of family, size, number of members, rank, options); families are known real combinations '
        'of orthonormal terms, results are expanded in the same terms from their values at sample points')
REQUIRED_EVENTS = ('constrained', 'constrained sparse', 'constrained to nothing', 'dependent family', 'nearly dependent', 'rectangular', 'subtracted',
                   'not a subfamily', 'everything subtracted', 'orthogonal family', 'prettified', 'symmetrized', 'BlochModel', 'Model', 'parameters',
                   'symmetric accepted', 'broken rejected', 'rounded accepted', 'rounded broken rejected', 'continuous accepted',
                   'continuous rejected', 'combined', 'combined sympy', 'default coefficients', 'rounded', 'empty family')
ASSUMPTIONS = ['members are dense matrices with terms in normal form', 'families to constrain or prettify are linearly independent',
               'prettified families are well conditioned (documented as possibly unstable)']


class Named:
    """Function with its symbolic form."""

    def __init__(self, f, momenta):
        self.f = f
        k = [sympy.Symbol(m, commutative=True) for m in momenta]
        if isinstance(f, fam.Monomial):
            self.key = sympy.Mul(*[x**int(n) for x, n in zip(k, f.p)])
            self.vec = None
        else:
            v = p19.exact(f.v)
            self.vec = np.array(f.v, float)
            self.key = sympy.expand(gen.e_sym()**(sympy.I * sum((x * y for x, y in zip(v, k)), sympy.Integer(0))))


class Builder:
    """Turns coefficients into members."""

    def __init__(self, space, momenta, cls):
        self.space, self.cls = space, cls
        self.momenta = [sympy.Symbol(m, commutative=True) for m in momenta]
        self.named = {}
        for el in space.elements:
            for f, _ in el:
                if id(f) not in self.named:
                    self.named[id(f)] = Named(f, space.momenta)

    def __call__(self, c, rng=None):
        import qsymm
        from qsymm.model import BlochCoeff
        out = {}
        for x, el in zip(c, self.space.elements):
            if x == 0 and (rng is None or rng.random() < .8):
                continue
            for f, m in el:
                out.setdefault(id(f), np.zeros(self.space.shape, complex))
                out[id(f)] = out[id(f)] + x * m
        named = {k: self.named[k] for k in out}
        if self.cls == 'BlochModel':
            d = {BlochCoeff(named[k].vec, sympy.Integer(1)): v for k, v in out.items()}
            return qsymm.BlochModel(d, momenta=self.momenta, shape=self.space.shape, format=np.ndarray)
        d = {named[k].key: v for k, v in out.items()}
        return qsymm.Model(d, momenta=self.momenta, shape=self.space.shape, format=np.ndarray)


def source(rng, rec, limit=40, kinds=('poly', 'poly', 'bloch'), nmax=3):
    """-> Builder, symmetries, description"""
    kind = gen.choice(rng, kinds)
    if kind == 'poly':
        dim = int(rng.integers(0, 4))
        ops, n, desc = p17.operators(rng, rec, dim, nmax=nmax)
        total = int(rng.integers(0, {0: 1, 1: 4, 2: 3, 3: 3}[dim]))
        while total and len(fam.monomials(dim, total)) * n * n > limit:
            total -= 1
        mom = gen.choice(rng, [('k_x', 'k_y', 'k_z'), ('k_x', 'k_y', 'k_z'), ('q', 'p', 'r')])[:dim]
        tot = [total] if rng.random() < .4 else list(range(total + 1))
        space = p17.make_space(rng, dim, n, tot, None, mom)
        rec.event('Model')
        return Builder(space, mom, 'Model'), ops, ('poly', dim, n, total)
    if kind == 'bloch':
        (lat, s, m, off, N, gens, cons, rep), hops, full, heavy = p19.small(rng, rec, 2000)
        mom = ('k_x', 'k_y', 'k_z')[:lat.d]
        if rng.random() < .5:
            full = full + [(i, i, np.zeros(lat.d)) for i in range(lat.n)]
        space = p19.make_space(rng, full, m, off, N, mom)
        cls = 'BlochModel' if rep == 'float' or not heavy and len(space) < 20 and rng.random() < .6 else 'Model'
        rec.event(cls)
        ops = [g for g, _ in gens] + cons
        if not ops:
            raise symm.Skip('no symmetries')
        return Builder(space, mom, cls), ops, (cls, lat.which, N, len(full))
    # no symmetries: monomials with parameters, general rectangular matrices
    dim = int(rng.integers(0, 3))
    mom = ('k_x', 'k_y', 'k_z')[:dim]
    par = [str(x) for x in rng.permutation(['alpha', 'm_1', 'J'])[:int(rng.integers(0, 3))]]
    shape = (int(rng.integers(1, 4)), int(rng.integers(1, 4)))
    pw = {tuple(int(x) for x in rng.integers(0, 3, dim + len(par))) for _ in range(4)}
    els = []
    for p in sorted(pw):
        f = fam.Monomial(p)
        for i in range(shape[0]):
            for j in range(shape[1]):
                for c in (1, 1j):
                    M = np.zeros(shape, complex)
                    M[i, j] = c
                    els.append([(f, M)])
    space = fam.Space(els, list(mom) + par, shape, rng)
    rec.event('Model')
    if par:
        rec.event('parameters')
    if shape[0] != shape[1]:
        rec.event('rectangular')
    return Builder(space, mom, 'Model'), [], ('general', dim, len(par), shape)


def independent(rng, n, r, kind):
    """(r, n) well conditioned coefficients of rank r"""
    for _ in range(50):
        C = np.zeros((r, n))
        if kind == 'unit':
            C[np.arange(r), rng.permutation(n)[:r]] = rng.choice([1., -1, 2, .5], r)
        elif kind == 'orthogonal':
            C = gen.orthogonal(rng, n)[:r] * rng.uniform(.5, 2, r)[:, None]
        elif kind == 'int':
            C[np.arange(r), rng.permutation(n)[:r]] = 1
            for _ in range(2 * r):
                i, j = rng.integers(0, r, 2)
                if i != j:
                    C[i] += rng.choice([1, -1]) * C[j]
            if n > r:
                idx = rng.integers(0, n, 3)
                C[rng.integers(0, r, 3), idx] += rng.choice([1, -1, 2], 3)
        else:
            C = rng.normal(size=(r, n))
        s = np.linalg.svd(C, compute_uv=False) if r else np.ones(1)
        if s[-1] > .15 and s[0] < 20:
            return C
    raise symm.Skip('no well conditioned family')


def pick_rank(rng, n, cap=12):
    return int(rng.integers(1, min(n, cap) + 1))


def unchanged(rec, before, *args):
    rec.check([ev.digest(a) for a in args] == before, 'arguments unchanged')


def span_basis(C):
    return np.linalg.svd(C, full_matrices=False)[2][:np.linalg.matrix_rank(C, tol=1e-9)] if len(C) else np.zeros((0, C.shape[1]))


def container(rng, F):
    return gen.choice(rng, [list, list, tuple])(F)


def constrain(rng, rec):
    from qsymm import hamiltonian_generator as hg
    B, ops, desc = source(rng, rec)
    n = len(B.space)
    if not n:
        raise symm.Skip('no terms')
    full = rng.random() < .6 and n <= 40
    C = independent(rng, n, n if full else pick_rank(rng, n, 16), gen.choice(rng, ['unit', 'orthogonal', 'int', 'random'] if n < 17 else ['unit', 'orthogonal']))
    F = [B(c, rng) for c in C]
    ops = [ops[i] for i in rng.permutation(len(ops))[:int(rng.integers(1, len(ops) + 1))]]
    kw = {}
    if rng.random() < .3:
        kw['sparse_linalg'] = True
    elif rng.random() < .2:
        kw['sparse_linalg'] = False
    rec.note(source=desc, ops=repr(ops), C=C, kw=kw)
    d = [ev.digest(F), ev.digest(ops)]
    G = hg.constrain_family(ops, F, **kw)
    unchanged(rec, d, F, ops)
    A = np.vstack([B.space.constraint(fam.as_op(g)) @ C.T for g in ops])
    N = symm.ratio_nullspace(A, lo=1e-9, hi=1e-6, floor=1.).real @ C
    N = span_basis(N)
    X = B.space.coordinates(rec, G, 'constrained family: allowed terms')
    fam.same_span(rec, X, N, 'constrained family')
    for x in list(G)[:2]:
        rec.check(type(x) is type(F[0]), 'type of the members')
        p = B.space.pts[0]
        v = ev.mev(x, p)
        for g in ops:
            if hasattr(g, 'conjugate'):
                rec.close(ev.apply_oracle(g, x, p), v, 'constrained family: invariant', tol=1e-6, scale=max(1., np.max(np.abs(v))))
    rec.event('constrained')
    if kw.get('sparse_linalg'):
        rec.event('constrained sparse')
    if not len(N):
        rec.event('constrained to nothing')
    rec.sig('constrain', desc, len(C), len(N), len(ops), str(kw))


def duplicates(rng, rec):
    from qsymm import hamiltonian_generator as hg
    B, _, desc = source(rng, rec, kinds=('poly', 'bloch', 'general', 'general'))
    n = len(B.space)
    if not n:
        raise symm.Skip('no terms')
    r = pick_rank(rng, n, 8)
    C = independent(rng, n, r, gen.choice(rng, ['unit', 'int', 'random', 'orthogonal']))
    extra = int(rng.integers(0, 5))
    mix = rng.integers(-2, 3, (extra, r)) * 1. if rng.random() < .5 else rng.normal(size=(extra, r))
    D = np.vstack([C, mix @ C])
    if extra:
        rec.event('dependent family')
    kw, eps = {}, 0.
    want, tol = r, 1e-7
    if rng.random() < .4 and extra and r < n:
        # nearly dependent members, well separated from the tolerance
        v = rng.normal(size=n)
        q = span_basis(C)
        v -= q.T @ (q @ v)
        v /= np.linalg.norm(v)
        eps, t = [(1e-4, None), (1e-4, 1e-7), (1e-5, 1e-2), (1e-12, None), (1e-3, 1e-6)][int(rng.integers(5))]
        if t is not None:
            kw['tol'] = t
        D[-1] = C[0] + eps * v
        kept = eps > kw.get('tol', 1e-8)
        want = r + int(kept)
        if kept:
            C = np.vstack([C, v])
        else:
            tol = 50 * eps + 1e-7
        rec.event('nearly dependent')
    if rng.random() < .2:
        D = np.vstack([D, np.zeros(n)])
    D = D[rng.permutation(len(D))]
    F = container(rng, [B(c, rng) for c in D])
    rec.note(source=desc, D=D, kw=kw, eps=eps)
    d = [ev.digest(F)]
    G = hg.remove_duplicates(F, **kw)
    unchanged(rec, d, F)
    X = B.space.coordinates(rec, G, 'family without duplicates: terms of the family', tol=1e-6)
    rec.check(len(G) == want, 'number of independent members', got=len(G), want=want)
    for x in G:
        rec.check(type(x) is type(F[0]), 'type of the members')
    if eps:
        q = span_basis(C)
        X = X / np.linalg.norm(X, axis=1)[:, None] if len(X) and eps < 1e-8 else X
        rec.close(X @ q.T @ q, X, 'family without duplicates: span', tol=tol)
        s = np.linalg.svd(X, compute_uv=False)
        rec.check(s[-1] > 1e-7 if eps > kw.get('tol', 1e-8) else s[-1] > 1e-3, 'members are linearly independent', s=s)
    else:
        fam.same_span(rec, X, span_basis(C), 'family without duplicates')
    rec.sig('duplicates', desc, len(D), r, eps, str(kw))


def pretty(rng, rec):
    from qsymm import hamiltonian_generator as hg
    B, _, desc = source(rng, rec, kinds=('poly', 'bloch', 'general'))
    n = len(B.space)
    if not n:
        raise symm.Skip('no terms')
    r = pick_rank(rng, n, 6)
    kind = gen.choice(rng, ['unit', 'int', 'random', 'orthogonal', 'close'])
    C = independent(rng, n, r, 'random' if kind == 'close' else kind)
    kw = {}
    digits = 2
    if kind == 'close':
        # members which differ by a small independent part
        digits = kw['num_digits'] = int(rng.integers(7, 10))
        for i in range(1, r):
            C[i] = C[0] + C[i] * 10.**-rng.uniform(3.2, 5)
    elif kind != 'unit' and (kind != 'int' or r > 3) or rng.random() < .4:
        digits = kw['num_digits'] = int(rng.integers(4, 11))
    if not stable(B, C, 10.**-digits):
        rec.skip('prettifying is not stable')
    F = container(rng, [B(c, rng) for c in C])
    rec.note(source=desc, C=C, kw=kw)
    d = [ev.digest(F)]
    G = hg.make_basis_pretty(F, **kw)
    unchanged(rec, d, F)
    tol = max(10 * 10.**-digits * np.sqrt(n), 1e-8)
    rec.check(len(G) == r, 'prettified family: number of members', got=len(G), want=r)
    X = B.space.coordinates(rec, G, 'prettified family: terms of the family', tol=tol)
    q = span_basis(C)
    rec.close(X @ q.T @ q, X, 'prettified family: span', tol=tol, scale=max(1., np.max(np.abs(X))))
    s = np.linalg.svd(X, compute_uv=False)
    rec.check(s[-1] > 1e-3, 'prettified family: members are linearly independent', s=s)
    for x in G:
        rec.check(type(x) is type(F[0]), 'type of the members')
        for v in x.values():
            rec.close(v, np.around(v, digits), 'entries rounded to num_digits', tol=1e-13)
    rec.event('prettified')
    if kind == 'close' and r > 1:
        rec.event('prettified nearly equal members')
    rec.sig('pretty', desc, kind, r, digits)


def stable(B, C, rtol):
    """All pivots are well above the tolerance, for any order of the terms."""
    for order in range(6):
        rng = np.random.default_rng(order)
        A = C[:, rng.permutation(C.shape[1])].astype(float)
        tol = np.max(np.abs(A)) * rtol
        row = 0
        for j in range(A.shape[1]):
            if row == len(A):
                break
            i = row + int(np.argmax(np.abs(A[row:, j])))
            if abs(A[i, j]) < 1e-9:
                continue
            if abs(A[i, j]) < 20 * tol:
                return False
            A[[row, i]] = A[[i, row]]
            A[row] /= A[row, j]
            for k in range(len(A)):
                if k != row:
                    A[k] -= A[k, j] * A[row]
            row += 1
        if np.max(np.abs(A)) > 50:
            return False
    return True


def symmetrize(rng, rec):
    import qsymm
    from qsymm import groups, hamiltonian_generator as hg
    B, ops, desc = source(rng, rec, nmax=2 if rng.random() < .7 else 3)
    pg = [g for g in ops if hasattr(g, 'conjugate')]
    if not pg or not len(B.space):
        raise symm.Skip('no symmetries')
    dim, n = len(B.momenta), B.space.n
    pg = pg[:2]
    how = gen.choice(rng, ['generated', 'projective', 'single'])
    if how == 'single':
        G = [groups.identity(dim, n)]
    else:
        strict = [qsymm.PointGroupElement(g.R, g.conjugate, g.antisymmetry, g.U, _strict_eq=True) for g in pg]
        loose = [qsymm.PointGroupElement(g.R, g.conjugate, g.antisymmetry, g.U) for g in pg]
        G = small_group(strict if how == 'generated' else loose)
        if G is None or len(G) > 48:
            raise symm.Skip('large group')
        if how == 'projective' and not consistent(G):
            raise symm.Skip('not a representation')
        G = gen.choice(rng, [list, set, tuple])(G)
    N = len(B.space)
    c = np.zeros(N)
    c[rng.permutation(N)[:int(rng.integers(1, 4))]] = rng.choice([1, -1, .5, 2.])
    M = B(c)
    rec.note(source=desc, G=len(G), c=c, ops=repr(pg), how=how)
    d = [ev.digest(M)]
    S = hg.symmetrize_monomial(M, G)
    unchanged(rec, d, M)
    rec.check(type(S) is type(M), 'type of the symmetrized term')
    for p in B.space.pts[:2]:
        want = sum(ev.apply_oracle(g, M, p) for g in G) / len(G)
        got = ev.mev(S, p)
        rec.close(got, want, 'symmetrized term is the group average', tol=1e-9)
        for g in list(G)[:4]:
            rec.close(ev.apply_oracle(g, S, p), got, 'symmetrized term is invariant', tol=1e-7, g=repr(g))
    T = hg.symmetrize_monomial(S, G)
    p = B.space.pts[2]
    rec.close(ev.mev(T, p), ev.mev(S, p), 'symmetrizing again changes nothing', tol=1e-7)
    rec.event('symmetrized')
    rec.sig('symmetrize', desc, how, len(G))


def small_group(gens):
    """Closure by independent multiplication of strict elements, None if it is large."""
    def same(a, b):
        return (a[1], a[2]) == (b[1], b[2]) and np.allclose(a[0], b[0], atol=1e-7) and (not gens[0]._strict_eq or np.allclose(a[3], b[3], atol=1e-7))

    def raw(g):
        return ev.Rfloat(g.R), g.conjugate, g.antisymmetry, np.asarray(g.U)
    out, raws = list(gens), [raw(g) for g in gens]
    uniq = []
    for g, r in zip(out, raws):
        if not any(same(r, raw(h)) for h in uniq):
            uniq.append(g)
    out, raws = uniq, [raw(g) for g in uniq]
    i = 0
    while i < len(out):
        for g in gens:
            h = out[i] * g
            r = raw(h)
            if not any(same(r, x) for x in raws):
                out.append(h)
                raws.append(r)
                if len(out) > 48:
                    return None
        i += 1
    return out


def consistent(G):
    """Products agree with the listed elements up to phase."""
    U = [np.asarray(g.U) for g in G]
    R = [ev.Rfloat(g.R) for g in G]
    for i, g in enumerate(G):
        for j, h in enumerate(G):
            W = U[i] @ (U[j].conj() if g.conjugate else U[j])
            for k, f in enumerate(G):
                if (f.conjugate, f.antisymmetry) == (g.conjugate ^ h.conjugate, g.antisymmetry ^ h.antisymmetry) and \
                        np.allclose(R[i] @ R[j], R[k], atol=1e-7):
                    x = W @ U[k].conj().T
                    if np.max(np.abs(x - x[0, 0] * np.eye(len(x)))) > 1e-7:
                        return False
                    break
            else:
                return False
    return True


def subtract(rng, rec):
    from qsymm import hamiltonian_generator as hg
    B, _, desc = source(rng, rec, kinds=('poly', 'bloch', 'general'))
    n = len(B.space)
    if n < 1:
        raise symm.Skip('no terms')
    r1 = pick_rank(rng, n, 8)
    kind = gen.choice(rng, ['unit', 'int', 'random', 'orthogonal'])
    C1 = independent(rng, n, r1, kind)
    q1 = span_basis(C1)
    how = gen.choice(rng, ['sub', 'sub', 'sub', 'sub and orthogonal', 'orthogonal', 'all', 'oblique', 'empty'])
    r2 = int(rng.integers(0 if how != 'sub' else min(1, r1), r1 + 1))
    inside = independent(rng, r1, r2, gen.choice(rng, ['random', 'unit', 'int'])) @ C1 if r2 else np.zeros((0, n))
    if how == 'all':
        inside = independent(rng, r1, r1, 'random') @ C1
    rest = np.eye(n) - q1.T @ q1
    out = np.zeros((0, n))
    if how in ('sub and orthogonal', 'orthogonal'):
        if r1 == n:
            raise symm.Skip('nothing is orthogonal to the family')
        out = rng.normal(size=(int(rng.integers(1, 3)), n)) @ rest
    if how == 'orthogonal':
        inside = np.zeros((0, n))
    C2 = np.vstack([inside, out])
    raises = False
    if how == 'oblique':
        if r1 == n:
            raise symm.Skip('nothing is orthogonal to the family')
        v = rng.normal(size=n) @ rest
        v = v / np.linalg.norm(v) + C1[int(rng.integers(r1))]
        C2 = np.vstack([inside[:-1], v])
        q2 = span_basis(C2)
        P1, P2 = q1.T @ q1, q2.T @ q2
        # the part of span 1 left after projecting
        res = (q1 - q1 @ P2) @ (np.eye(n) - P1)
        if np.max(np.abs(res)) < 1e-3:
            raise symm.Skip('oblique family is not clear cut')
        raises = True
    if how == 'empty':
        C2 = np.zeros((0, n))
    if rng.random() < .3 and len(C2):
        C2 = np.vstack([C2, rng.integers(-2, 3, (1, len(C2))) @ C2])
    D1 = C1
    if rng.random() < .3:
        D1 = np.vstack([C1, rng.integers(-2, 3, (2, r1)) @ C1])
        rec.event('dependent family')
    kw = {}
    if rng.random() < .3:
        kw['tol'] = float(gen.choice(rng, [1e-6, 1e-7, 1e-9]))
    prettify = rng.random() < .4
    if prettify:
        kw['prettify'] = True
    F1, F2 = container(rng, [B(c, rng) for c in D1]), container(rng, [B(c, rng) for c in C2])
    rec.note(source=desc, D1=D1, C2=C2, how=how, kw=kw)
    d = [ev.digest(F1), ev.digest(F2)]
    if raises:
        rec.raises(ValueError, lambda: hg.subtract_family(F1, F2, **kw), 'family2 is neither inside family1 nor orthogonal to it')
        rec.event('not a subfamily')
        rec.sig('subtract', how, desc, len(D1), len(C2))
        return
    q2 = span_basis(C2)
    coords = q1 @ (np.eye(n) - q2.T @ q2)
    want = span_basis(coords)
    if prettify and len(C2) and len(want) and not stable(B, want, kw.get('tol', 1e-8)):
        rec.skip('prettifying is not stable')
    G = hg.subtract_family(F1, F2, **kw)
    unchanged(rec, d, F1, F2)
    if not len(C2):
        # nothing to subtract: the family is returned
        X = B.space.coordinates(rec, G, 'nothing subtracted: terms')
        rec.close(X, D1, 'nothing subtracted: family is unchanged', tol=1e-9)
        rec.event('empty family')
        rec.sig('subtract', how, desc, len(D1))
        return
    X = B.space.coordinates(rec, G, 'subtracted family: terms of the family', tol=1e-6)
    fam.same_span(rec, X, want, 'subtracted family')
    rec.event('subtracted')
    rec.event('orthogonal family' if how == 'orthogonal' else 'everything subtracted' if not len(want) else 'part subtracted')
    rec.sig('subtract', how, desc, len(D1), len(C2), len(want), str(kw))


def check(rng, rec):
    """check_symmetry raises if and only if a member breaks a symmetry."""
    from qsymm import hamiltonian_generator as hg
    B, ops, desc = source(rng, rec)
    n = len(B.space)
    if not n:
        raise symm.Skip('no terms')
    N = B.space.invariant([fam.as_op(g) for g in ops])
    if not len(N):
        raise symm.Skip('no symmetric terms')
    m = int(rng.integers(1, 4))
    C = rng.normal(size=(m, len(N))) @ N
    if rng.random() < .5:
        C = C * 10.**rng.uniform(-1, 2, (m, 1))
    ops = container(rng, [ops[i] for i in rng.permutation(len(ops))])
    A = [B.space.constraint(fam.as_op(g)) for g in ops]
    E = fam.real(B.space.E.reshape(n, -1).T)

    def defect(c):
        """Largest coefficient of the difference between transformed and original, for each symmetry; None if it contains other terms."""
        out = []
        for a in A:
            x, *_ = np.linalg.lstsq(E, a @ c, rcond=1e-10)
            if np.max(np.abs(E @ x - a @ c), initial=0) > 1e-8 * max(1., np.max(np.abs(c))):
                return None
            out.append(max(np.max(np.abs(v), initial=0) for v in [elsum(B, x)]))
        return out
    cont = [not hasattr(g, 'conjugate') for g in ops]
    digits = None if rng.random() < .5 else int(rng.integers(0, 7))
    if digits is not None and digits < 2:
        # Something has to be left after rounding
        C = C * 10.**rng.uniform(1, 3)
    breaking = rng.random() < .5
    which = int(rng.integers(m))
    if breaking:
        v = rng.normal(size=n)
        v -= N.T @ (N @ v)
        if np.linalg.norm(v) < 1e-6:
            raise symm.Skip('everything is symmetric')
        v /= np.linalg.norm(v)
        size = 10.**rng.uniform(-3, 0) if digits is None else 10.**(-digits) * B.space.n * 10.**rng.uniform(2, 3)
        if digits is None:
            size *= max(1., np.max(np.abs(C[which])))
        C[which] = C[which] + size * v
    F = [B(c, rng) for c in C]
    if digits is not None:
        F = hg.round_family(F, digits)
        C = B.space.coordinates(rec, F, 'rounded family', tol=1e-9)
        rec.event('rounded')
    defects = [defect(c) for c in C]
    rec.note(source=desc, ops=repr(ops), C=C, digits=digits, breaking=breaking, defects=defects)
    known = [x for x in defects if x is not None]
    big = max([max(x) for x in known] + [0.])
    if len(known) < len(defects) and not breaking:
        raise symm.Skip('terms are not closed under the symmetries')
    args = dict(num_digits=digits) if digits is not None or rng.random() < .2 else {}
    d = [ev.digest(F), ev.digest(ops)]
    F = container(rng, F)
    scale = max(1., np.max(np.abs(C)))
    if digits is None:
        bad, good = big > 1e-4 * scale, big < 1e-11 * scale
    else:
        bad, good = big > 20 * B.space.n * 10.**-digits, big < .7 * B.space.n * 10.**-digits
    if bad:
        rec.raises(ValueError, lambda: hg.check_symmetry(F, ops, **args), 'family breaks a symmetry')
        rec.event('broken rejected' if digits is None else 'rounded broken rejected')
        worst = [max(x[i] for x in known) for i in range(len(ops))]
        if all(c for c, w in zip(cont, worst) if w > 1e-6 * scale):
            rec.event('continuous rejected')
    elif good:
        rec.check(hg.check_symmetry(F, ops, **args) is None, 'symmetric family is accepted')
        rec.event('symmetric accepted' if digits is None else 'rounded accepted')
        if any(cont):
            rec.event('continuous accepted')
    else:
        rec.skip('violation is comparable to the tolerance')
    rec.check(ev.digest(list(F)) == d[0] and ev.digest(ops) == d[1], 'arguments unchanged')
    rec.sig('check', desc, len(F), len(ops), digits, breaking)


def elsum(B, x):
    """Matrices of all functions for the given coefficients."""
    out = {}
    for c, el in zip(x, B.space.elements):
        for f, m in el:
            out[id(f)] = out.get(id(f), 0) + c * m
    return np.array(list(out.values()))


def displayed(rec, hg, F, rng, coeffs):
    """-> summed?, the objects given to the display function of a notebook"""
    import sys
    import types
    shown = []
    fake, sub = types.ModuleType('IPython'), types.ModuleType('IPython.display')
    sub.display = lambda *a, **k: shown.extend(a)
    fake.display = sub
    old = {k: sys.modules.get(k) for k in ('IPython', 'IPython.display')}
    sys.modules.update({'IPython': fake, 'IPython.display': sub})
    summed = bool(rng.random() < .5)
    try:
        hg.display_family(F, summed=summed, coeffs=coeffs, nsimplify=False)
    finally:
        for k, v in old.items():
            if v is None:
                sys.modules.pop(k)
            else:
                sys.modules[k] = v
    return summed, shown


def combine(rng, rec):
    import qsymm
    from qsymm import hamiltonian_generator as hg
    B, _, desc = source(rng, rec, limit=20, kinds=('poly', 'bloch', 'general'))
    n = len(B.space)
    if not n:
        raise symm.Skip('no terms')
    m = int(rng.integers(1, 14)) if rng.random() < .3 else int(rng.integers(1, 4))
    C = rng.integers(-3, 4, (m, n)) * (rng.random((m, n)) < .5) / gen.choice(rng, [1, 2, 4])
    C[:, int(rng.integers(n))] += rng.integers(5, 9, m)
    F = [B(c, rng) for c in C]
    kw = {}
    names = ['c%d' % i for i in range(m)]
    if rng.random() < .6:
        pool = ['t_%d' % i for i in range(m)]
        names = [pool[i] for i in rng.permutation(m)]
        coeffs = [sympy.Symbol(x) for x in names]
        if rng.random() < .3:
            coeffs = [x * gen.choice(rng, [1, 2, sympy.Rational(1, 3), sympy.Symbol('g')]) for x in coeffs]
        if rng.random() < .3:
            coeffs[0] = sympy.Integer(3)
        if rng.random() < .25:
            z = gen.choice(rng, [0, 0., sympy.Integer(0)])
            coeffs = [z if rng.random() < .6 or i == len(coeffs) - 1 else x for i, x in enumerate(coeffs)]
            rec.event('vanishing coefficients')
        kw['coeffs'] = coeffs
        if rng.random() < .1:
            rec.raises(AssertionError, lambda: hg.hamiltonian_from_family(F, coeffs + [sympy.Symbol('x')]), 'wrong number of coefficients')
    else:
        coeffs = [sympy.Symbol(x) for x in names]
        rec.event('default coefficients')
    allzero = all(x == 0 for x in coeffs)
    if allzero:
        rec.event('all coefficients vanish')
    tosym = rng.random() < .4 and not allzero
    kw['tosympy'] = bool(tosym)
    if rng.random() < .5 or tosym:
        kw['nsimplify'] = bool(rng.random() < .3)
    if tosym and desc[0] in ('poly', 'Model', 'general') and not kw.get('nsimplify', True):
        kw['nsimplify'] = False
    rec.note(source=desc, C=C, kw=repr(kw))
    d = [ev.digest(F)]
    H = hg.hamiltonian_from_family(F, **kw)
    unchanged(rec, d, F)
    shape = B.space.shape
    for p in B.space.pts[:2]:
        want = sum(ev.kev(c, p) * ev.mev(f, p) for c, f in zip(coeffs, F))
        if tosym:
            got = np.reshape(ev.smev(H, p), shape)
        else:
            rec.check(type(H) is type(F[0]), 'type of the Hamiltonian', got=type(H))
            if allzero:
                rec.check(H.shape == shape, 'shape of the vanishing Hamiltonian', got=H.shape)
            got = ev.mev(H, p)
        rec.close(got, want, 'Hamiltonian is the sum of coefficient times member', tol=1e-7, scale=max(1., np.max(np.abs(want))))
    rec.event('combined sympy' if tosym else 'combined')
    if m < 4:
        shown = displayed(rec, hg, F, rng, coeffs if 'coeffs' in kw and not allzero else None)
        unchanged(rec, d, F)
        summed, shown = shown
        if summed:
            rec.check(len(shown) == 1, 'display of the sum: one object', got=len(shown))
        else:
            rec.check(len(shown) == len(F), 'display: one object for each member', got=len(shown), want=len(F))
        cs = coeffs if 'coeffs' in kw and not allzero else [sympy.Symbol('c%d' % i) for i in range(m)]
        for p in B.space.pts[:1]:
            want = [sum(ev.kev(c, p) * ev.mev(f, p) for c, f in zip(cs, F))] if summed else [ev.mev(f, p) for f in F]
            for x, w in zip(shown, want):
                rec.close(np.reshape(ev.smev(x, p), shape), w, 'displayed expression', tol=1e-7, scale=max(1., np.max(np.abs(w))))
        rec.event('displayed')
    rec.sig('combine', desc, m, str(sorted(kw)), bool(tosym))


def rounding(rng, rec):
    from qsymm import hamiltonian_generator as hg
    B, _, desc = source(rng, rec, kinds=('poly', 'bloch', 'general'))
    n = len(B.space)
    if not n:
        raise symm.Skip('no terms')
    m = int(rng.integers(1, 5))
    C = rng.normal(size=(m, n)) * 10.**rng.uniform(-3, 1, (m, 1))
    F = container(rng, [B(c) for c in C])
    kw = {}
    digits = 3
    if rng.random() < .7:
        digits = kw['num_digits'] = int(rng.integers(0, 9))
    rec.note(source=desc, C=C, kw=kw)
    d = [ev.digest(F)]
    G = hg.round_family(F, **kw)
    unchanged(rec, d, F)
    rec.check(len(G) == len(F), 'rounded family: number of members')
    for f, g in zip(F, G):
        rec.check(type(f) is type(g), 'type of the members')
        for k in f.keys():
            want = np.around(f[k], digits)
            if np.max(np.abs(want)) < 2e-8:
                want = 0 * want
            rec.close(g[k], want, 'coefficients are rounded', tol=1e-13)
        rec.check(set(g.keys()) <= set(f.keys()), 'rounding adds no terms')
    rec.event('rounded')
    rec.sig('round', desc, m, digits)


def empty(rng, rec):
    from qsymm import hamiltonian_generator as hg
    B, ops, desc = source(rng, rec)
    if not len(B.space):
        raise symm.Skip('no terms')
    F = [B(np.eye(len(B.space))[0])]
    rec.note(source=desc)
    rec.check(len(hg.constrain_family(ops, [])) == 0, 'constraining an empty family')
    rec.check(len(hg.remove_duplicates([])) == 0, 'duplicates of an empty family')
    rec.check(len(hg.make_basis_pretty([])) == 0, 'prettifying an empty family')
    rec.check(len(hg.subtract_family([], F)) == 0, 'subtracting from an empty family')
    rec.check(hg.check_symmetry([], ops) is None, 'empty family is symmetric')
    rec.check(hg.check_symmetry(F, []) is None, 'no symmetries to satisfy')
    rec.event('empty family')
    rec.sig('empty', desc)


FAMILIES = {
    'constrain': (constrain, 350, 10000),
    'duplicates': (duplicates, 350, 10000),
    'pretty': (pretty, 300, 8000),
    'symmetrize': (symmetrize, 200, 6000),
    'subtract': (subtract, 500, 15000),
    'check': (check, 500, 15000),
    'combine': (combine, 150, 4000),
    'rounding': (rounding, 80, 2000),
    'empty': (empty, 15, 100),
}
