"""P22: lattice reduction, closest vector search and Voronoi cells."""
import itertools as it

import numpy as np

from .. import ev, gen, latt
from . import p21

RULE = ('states are (routine, dimension, embedding, kind of lattice, number of swaps/ties/groups/relevant vectors, options); reduction is '
        'checked exactly, searches against enumeration of all lattice points in a ball')
REQUIRED_EVENTS = ('reduction', 'nearly dependent', 'embedded', 'integer input', 'list input', 'already reduced', 'other parameter',
                   'closest', 'ties', 'grouped', 'lattice point', 'deep hole', 'off the span', 'many', 'other rtol',
                   'voronoi', 'minimal', 'faces of lower dimension', '1D', '2D', '3D', '4D', 'small scale', 'large scale', 'rejected')
ASSUMPTIONS = ['distances equal within 1e-10 are equal, different ones differ by more than 1e-7 (relative to the lattice constant)',
               'condition number of the basis given to the searches below 40']


def roots(rng):
    """Highly symmetric lattices in up to four dimensions."""
    t = gen.choice(rng, ['Z', 'A', 'A*', 'D', 'D*', 'ortho'])
    n = int(gen.choice(rng, [1, 2, 3, 3, 4]))
    if t == 'Z' or n == 1:
        B = np.eye(n)
    elif t in ('A', 'A*'):
        G = 2 * np.eye(n) - np.eye(n, k=1) - np.eye(n, k=-1)
        B = np.linalg.cholesky(G if t == 'A' else np.linalg.inv(G))
    elif t == 'ortho':
        B = np.diag(rng.uniform(.5, 2, n))
    else:
        B = np.eye(n) - np.eye(n, k=1)
        B[-1] = 0
        B[-1, -1] = B[-1, -2] = 1
        if t == 'D*':
            B = np.linalg.inv(B).T
    return t, B


def lattice(rng, rec, maxcond=40, dmax=4):
    u = rng.random()
    if u < .35:
        name, B = roots(rng)
    elif u < .6:
        name, B = p21.conventional(rng)
    elif u < .8:
        name, B = p21.gram(rng)
    else:
        n = int(rng.integers(1, dmax + 1))
        name, B = 'generic', rng.normal(size=(n, n)) + np.diag(rng.uniform(.3, 1.5, n))
    n = len(B)
    for _ in range(20):
        T = gen.unimodular(rng, n, steps=int(rng.integers(0, 4)), size=1) if n > 1 else np.eye(1)
        if np.linalg.cond(T @ B) < maxcond:
            B = T @ B
            break
    if np.linalg.cond(B) > maxcond:
        rec.skip('basis is too skewed')
    if rng.random() < .5 and n > 1:
        B = B @ gen.orthogonal(rng, n)
    if rng.random() < .15:
        B = B + 1e-12 * rng.normal(size=B.shape)
    if rng.random() < .3:
        D = n + int(rng.integers(1, 3))
        Q = np.eye(D)[rng.permutation(D)[:n]] if rng.random() < .4 else gen.orthogonal(rng, D)[:n]
        B = B @ Q
        rec.event('embedded')
    s = 1.
    if rng.random() < .25:
        s = 10.**float(gen.choice(rng, [-10, -4, -1, 1, 4, 10]))
        rec.event('small scale' if s < 1 else 'large scale')
    rec.event('%dD' % n)
    return name, B, s


def give(rng, rec, B):
    if np.max(np.abs(B - np.round(B))) < 1e-13 and .5 < np.max(np.abs(B)) < 1e5 and rng.random() < .7:
        B = np.round(B).astype(int)
        rec.event('integer input')
    if rng.random() < .3:
        B = B.tolist()
        rec.event('list input')
    return B


def reduction(rng, rec):
    from qsymm.kwant_linalg_lll import lll
    n = int(gen.choice(rng, [1, 2, 2, 3, 3, 4, 5, 6]))
    D = n + int(gen.choice(rng, [0, 0, 0, 1, 2, 3]))
    kind = gen.choice(rng, ['gauss', 'integer', 'skew', 'dependent', 'lattice', 'flat'])
    if kind == 'lattice':
        _, B, s = lattice(rng, rec, maxcond=1e5)
        B = B * s
        n, D = B.shape
        T = gen.unimodular(rng, n, steps=int(rng.integers(0, 12)), size=3) if n > 1 else np.eye(1)
        B = T @ B
    elif kind == 'integer':
        B = rng.integers(-6, 7, (n, D)).astype(float)
    elif kind == 'gauss':
        B = rng.normal(size=(n, D)) * 10.**rng.integers(-3, 4)
    elif kind == 'flat':
        B = rng.normal(size=(n, D)) * 10.**rng.uniform(-2, 2, n)[:, None]
    elif kind == 'skew':
        B = gen.unimodular(rng, n, steps=10, size=5) @ rng.normal(size=(n, D)) if n > 1 else rng.normal(size=(n, D))
    else:
        v = rng.normal(size=D)
        eps = 10.**rng.uniform(-4, -1)
        B = v + eps * rng.normal(size=(n, D))
        rec.event('nearly dependent')
    cond = np.linalg.cond(B)
    if not cond < 1e6:
        rec.skip('singular basis')
    if D > n:
        rec.event('embedded')
    args = []
    c = 1.34
    if rng.random() < .3:
        c = float(gen.choice(rng, [1.3334, 1.517, 2.03, 4.07, 9.91]))
        args = [c]
        rec.event('other parameter')
    arg = give(rng, rec, B)
    rec.note(B=B, c=c, kind=kind)
    d0 = ev.digest(arg)
    red, coef = lll(arg, *args)
    rec.check(ev.digest(arg) == d0, 'input unchanged')
    red, coef = np.asarray(red), np.asarray(coef)
    rec.check(red.shape == B.shape and coef.shape == (n, n), 'shapes', got=(red.shape, coef.shape))
    rec.check(np.issubdtype(coef.dtype, np.integer), 'integer transformation', got=coef.dtype)
    size = np.max(np.abs(B))
    rec.close(coef.T @ B / size, red / size, 'reduced basis is the transformed basis', tol=1e-8 * max(1, np.max(np.abs(coef))))
    det = np.linalg.det(coef.astype(float)) if n else 1
    import sympy
    det = int(sympy.Matrix(coef.tolist()).det())
    rec.check(abs(det) == 1, 'transformation is unimodular', det=det)
    # reducedness
    Q, R = np.linalg.qr(red.T)
    r = np.abs(np.diag(R))**2
    rec.check(np.all(r[:-1] < c * r[1:] * (1 + 1e-6)), 'Gram-Schmidt lengths', ratios=r[:-1] / r[1:], c=c)
    mu = (R / np.diag(R)[:, None]).T
    rec.check(np.max(np.abs(np.tril(mu, -1)), initial=0) < .5 + 1e-4,
              'vectors are size reduced', mu=mu)
    # quality implied by c-reducedness
    same = np.array_equal(coef, np.eye(n))
    if same:
        rec.event('already reduced')
    if n <= 3:
        br = latt.reduce_basis(red)
        rec.check(np.linalg.norm(red[0]) < c**((n - 1) / 2) * np.min(np.linalg.norm(br, axis=1)) * (1 + 1e-6), 'first vector is short')
    rec.event('reduction')
    rec.sig('lll', kind, n, D, c, int(np.max(np.abs(coef))), same)


def distances(rng, rec, B, v, k):
    """At least k closest lattice points (coefficients, distances)."""
    P = np.linalg.pinv(B)
    c0 = np.asarray(v) @ P
    n = len(B)
    R = np.linalg.norm(B[0]) * .6
    vol = np.sqrt(np.linalg.det(B @ B.T))
    R = max(R, (k * vol)**(1 / n) * .8)
    while True:
        C, d = latt.points_within(B, v @ P @ B, R)
        if len(C) >= k:
            order = np.argsort(d)
            return C[order], d[order], R
        R *= 1.25


def closest(rng, rec):
    from qsymm.kwant_linalg_lll import cvp, lll
    name, B0, s = lattice(rng, rec)
    n = len(B0)
    if rng.random() < .4:
        B0 = np.asarray(lll(B0)[0])
    B = B0 * s
    u = rng.random()
    if u < .2:
        co = np.zeros(n) if rng.random() < .5 else rng.integers(-3, 4, n)
        rec.event('lattice point')
    elif u < .5:
        co = rng.integers(-4, 5, n) / 2
        rec.event('deep hole')
    elif u < .7:
        co = rng.integers(-6, 7, n) / gen.choice(rng, [3, 4, 6])
    else:
        co = rng.uniform(-3, 3, n)
    v = co @ B
    if B.shape[1] > n and rng.random() < .6:
        Q = np.linalg.svd(B0)[2][n:]
        v = v + s * (rng.normal(size=len(Q)) @ Q)
        rec.event('off the span')
    k = int(gen.choice(rng, [1, 1, 2, 3, 5, 8, 13, 30] if n < 4 else [1, 1, 2, 3, 5]))
    if k >= 13:
        rec.event('many')
    group = bool(rng.random() < .5)
    if group and k > 8:
        k = 8
    kw = {}
    if group:
        kw['group_by_length'] = True
        rec.event('grouped')
        if rng.random() < .3:
            kw['rtol'] = float(gen.choice(rng, [1e-7, 1e-8, 1e-10]))
            rec.event('other rtol')
    elif rng.random() < .3:
        kw['group_by_length'] = False
    # reference
    need = k + 1
    while True:
        C, d, R = distances(rng, rec, B0, v / s, need)
        jumps = np.where(np.diff(d) > 3e-9)[0]
        if not group or len(jumps) >= k:
            break
        need = int(need * 1.6) + 1
        if need > 4000:
            rec.skip('too many ties')
    gaps = np.diff(d)
    if np.any((gaps > 1e-11) & (gaps < 1e-6)):
        rec.skip('distances nearly equal')
    rec.note(B=B, v=v, k=k, kw=kw, name=name)
    Barg = B if rng.random() < .5 else give(rng, rec, B)
    varg = v if rng.random() < .7 else v.tolist()
    d0 = ev.digest((Barg, varg))
    if k == 1 and rng.random() < .5:
        got = cvp(varg, Barg, **kw)
    else:
        got = cvp(varg, Barg, k, **kw)
    rec.check(ev.digest((Barg, varg)) == d0, 'input unchanged')
    got = np.asarray(got)
    rec.check(np.issubdtype(got.dtype, np.integer) and got.ndim == 2 and got.shape[1] == n, 'integer coefficients', got=got.dtype, shape=got.shape)
    P = np.linalg.pinv(B0)
    flat = (v / s) @ P @ B0
    dg = np.linalg.norm(got @ B0 - flat, axis=1)
    rec.check(len({tuple(x) for x in got.tolist()}) == len(got), 'no repetition', got=got)
    rec.check(np.all(np.diff(dg) > -1e-9), 'ordered by distance', d=dg)
    if group:
        m = jumps[k - 1] + 1
        rec.check(len(got) == m, 'all vectors of the closest groups', got=len(got), want=m)
        rec.check({tuple(x) for x in got.tolist()} == {tuple(x) for x in C[:m].tolist()}, 'the closest vectors')
        if m > k:
            rec.event('ties')
    else:
        rec.check(len(got) == k, 'number of vectors', got=len(got))
        rec.check(np.max(np.abs(dg - d[:k])) < 1e-8, 'closest distances', got=dg, want=d[:k])
        if len(d) > k and d[k] - d[k - 1] < 1e-8:
            rec.event('ties')
    rec.event('closest')
    rec.sig('cvp', name, n, B.shape[1], k, group, len(got), s, int(np.max(np.abs(got), initial=0)))


def cell(rng, rec):
    from qsymm.kwant_linalg_lll import voronoi
    name, B0, s = lattice(rng, rec)
    n = len(B0)
    flat = np.linalg.cholesky(B0 @ B0.T)
    want, margin = latt.relevant(flat)
    if margin < 1e-4:
        rec.skip('face of the cell is tiny')
    B = B0 * s
    u = rng.random()
    kw = {} if u < .3 else dict(reduced=False) if u < .4 else dict(reduced=True)
    if rng.random() < .2:
        kw['rtol'] = float(gen.choice(rng, [1e-8, 1e-7, 1e-6]))
        if margin < 1e-2:
            kw.pop('rtol')
    rec.note(B=B, kw=kw, name=name)
    arg = give(rng, rec, B)
    d0 = ev.digest(arg)
    V = np.asarray(voronoi(np.asarray(arg) if rng.random() < .7 else arg, **kw))
    rec.check(ev.digest(arg) == d0, 'input unchanged')
    rec.check(np.issubdtype(V.dtype, np.integer) and V.ndim == 2 and V.shape[1] == n and len(V) % 2 == 0, 'integer vectors', got=V.shape)
    h = len(V) // 2
    rec.check(np.array_equal(V[h:], -V[:h]), 'second half is the opposite of the first')
    S, W = {tuple(x) for x in V.tolist()}, {tuple(int(y) for y in x) for x in want}
    rec.check(len(S) == len(V), 'no repetition', got=V)
    if kw.get('reduced'):
        rec.check(S == W, 'vectors bounding the cell', missing=W - S, spurious=S - W)
        rec.event('minimal')
        if len(W) < 2 * (2**n - 1):
            rec.event('faces of lower dimension')
    else:
        rec.check(len(V) == 2 * (2**n - 1), 'number of vectors', got=len(V))
        rec.check(W <= S, 'includes all bounding vectors', missing=W - S)
        rec.check(len({tuple(x) for x in (V[:h] % 2).tolist()}) == h and all(np.any(x % 2) for x in V), 'one pair per class')
        # all are shortest in their class
        for x in V[:h]:
            R = np.linalg.norm(x @ flat) / 2
            C, d = latt.points_within(flat, x @ flat / 2, R * (1 - 1e-9))
            rec.check(len(C) == 0, 'half of the vector is closest to the origin', vec=x, closer=C)
    rec.event('voronoi')
    rec.sig('voronoi', name, n, B.shape[1], len(W), len(V), s)


def rejected(rng, rec):
    from qsymm.kwant_linalg_lll import lll, cvp, voronoi
    rec.raises(ValueError, lambda: lll(rng.normal(size=3)), 'reduction of a vector')
    rec.raises(ValueError, lambda: lll(rng.normal(size=(3, 2))), 'more vectors than dimensions')
    rec.raises(ValueError, lambda: cvp(rng.normal(size=3), rng.normal(size=3)), 'basis is a vector')
    rec.raises(ValueError, lambda: voronoi(rng.normal(size=3)), 'basis is a vector')
    rec.event('rejected')
    rec.sig('rejected')


FAMILIES = {
    'reduction': (reduction, 4000, 150000),
    'closest': (closest, 4000, 120000),
    'cell': (cell, 2500, 60000),
    'rejected': (rejected, 2, 5),
}
