"""P21: the Bravais point group is the full isometry group of the lattice."""
import contextlib
import io

import numpy as np

from .. import ev, gen, latt

RULE = ('states are (Bravais type, dimension, size of the group, kind of basis and embedding, options); the group is compared '
        'with all isometries found by enumerating images of a reduced basis')
REQUIRED_EVENTS = ('1D', '2D', '3D', 'embedded', 'rotated', 'other basis', 'perturbed', 'noise', 'small scale', 'large scale', 'time reversal',
                   'particle-hole', 'generators', 'integer input', 'cubic', 'hexagonal', 'tetragonal', 'orthorhombic', 'monoclinic', 'triclinic',
                   'rhombohedral', 'integer Gram matrix', 'verbose', 'rejected')
ASSUMPTIONS = ['perturbations are either below 1e-9 or above 3e-3 of the lattice constants', 'aspect ratios up to about 10']


def conventional(rng):
    """(name, basis rows)"""
    d = gen.choice(rng, [1, 2, 2, 3, 3, 3, 3, 3])
    grid = lambda: float(gen.choice(rng, [1, 1.25, 1.5, 2, 3, np.sqrt(2), np.sqrt(3), np.sqrt(3) / 2, 1 / np.sqrt(2), np.sqrt(8 / 3), .5])) \
        if rng.random() < .5 else float(rng.uniform(.4, 3))
    a, b, c = grid(), grid(), grid()
    ang = float(gen.choice(rng, [np.pi / 3, np.arccos(.25), np.arccos(1 / 3), np.pi / 4, 1.2])) if rng.random() < .4 else float(rng.uniform(.5, 1.5))
    if rng.random() < .5:
        ang = np.pi - ang
    if d == 1:
        return '1D', np.array([[a]])
    if d == 2:
        t = gen.choice(rng, ['square', 'rectangular', 'centered', 'hexagonal', 'oblique', 'oblique'])
        if t == 'square':
            L = np.eye(2)
        elif t == 'rectangular':
            L = np.diag([a, b])
        elif t == 'centered':
            L = np.array([[a, b], [a, -b]]) / 2
        elif t == 'hexagonal':
            L = np.array([[1, 0], [.5, np.sqrt(3) / 2]])
        else:
            L = np.array([[a, 0], [b * np.cos(ang), b * np.sin(ang)]])
        return t, L
    cen = {'P': np.eye(3), 'I': np.array([[-.5, .5, .5], [.5, -.5, .5], [.5, .5, -.5]]), 'F': np.array([[0, .5, .5], [.5, 0, .5], [.5, .5, 0]]),
           'C': np.array([[.5, .5, 0], [.5, -.5, 0], [0, 0, 1]])}
    t, k = gen.choice(rng, [('cubic', 'P'), ('cubic', 'I'), ('cubic', 'F'), ('tetragonal', 'P'), ('tetragonal', 'I'), ('tetragonal', 'I'), ('orthorhombic', 'P'),
                            ('orthorhombic', 'I'), ('orthorhombic', 'I'), ('orthorhombic', 'F'), ('orthorhombic', 'C'), ('hexagonal', 'P'),
                            ('rhombohedral', 'P'), ('rhombohedral', 'P'), ('monoclinic', 'P'), ('monoclinic', 'C'), ('monoclinic', 'C'),
                            ('monoclinic', 'I'), ('triclinic', 'P'), ('triclinic', 'P')])
    if t == 'cubic':
        A = np.eye(3)
    elif t == 'tetragonal':
        A = np.diag([1, 1, c])
    elif t == 'orthorhombic':
        A = np.diag([a, b, c])
    elif t == 'hexagonal':
        A = np.array([[1, 0, 0], [.5, np.sqrt(3) / 2, 0], [0, 0, c]])
    elif t == 'rhombohedral':
        A = np.array([[np.cos(p), np.sin(p), c] for p in (0, 2 * np.pi / 3, 4 * np.pi / 3)])
    elif t == 'monoclinic':
        A = np.array([[a, 0, 0], [0, b, 0], [c * np.cos(ang), 0, c * np.sin(ang)]])
    else:
        A = np.array([[a, 0, 0], [b * np.cos(ang), b * np.sin(ang), 0], [rng.uniform(-1, 1), rng.uniform(-1, 1), c]])
    return t, cen[k] @ A


def gram(rng):
    d = int(gen.choice(rng, [2, 3, 3, 3]))
    for _ in range(200):
        G = np.diag(rng.integers(2, 9, d)).astype(float)
        if rng.random() < .4:
            G = np.diag(np.full(d, float(rng.integers(2, 9))))
        for i in range(d):
            for j in range(i):
                G[i, j] = G[j, i] = rng.integers(-3, 4)
        w = np.linalg.eigvalsh(G)
        if w[0] > .2 and w[-1] / w[0] < 60:
            return 'integer Gram matrix', np.linalg.cholesky(G)
    return 'cubic', np.eye(3)


def lattice(rng, rec):
    name, L = gram(rng) if rng.random() < .35 else conventional(rng)
    d = len(L)
    rec.event(name)
    rec.event('%dD' % d)
    tag = [name]
    u = rng.random()
    if u < .2:
        E = rng.uniform(-1, 1, (d, d))
        L = L @ (np.eye(d) + float(10.**rng.uniform(-2.2, -1)) * E)
        rec.event('perturbed')
        tag.append('perturbed')
    elif u < .35:
        L = L + 1e-11 * rng.uniform(-1, 1, L.shape)
        rec.event('noise')
        tag.append('noise')
    if rng.random() < .6 and d > 1:
        L = gen.unimodular(rng, d, steps=int(rng.integers(1, 5)), size=2) @ L
        rec.event('other basis')
        tag.append('basis')
    s = 1.
    if rng.random() < .3:
        s = 10.**float(gen.choice(rng, [-10, -3, -2, 2, 3, 6]))
        L = L * s
        rec.event('small scale' if s < 1 else 'large scale')
        tag.append(s)
    return name, L, tag, s


def group(rng, rec):
    import qsymm
    name, L, tag, s = lattice(rng, rec)
    d = len(L)
    D = d
    if rng.random() < .5 and d > 1:
        L = L @ gen.orthogonal(rng, d)
        rec.event('rotated')
    embedded = rng.random() < .25
    if embedded:
        D = int(rng.integers(d + 1, 5))
        Q = gen.orthogonal(rng, D)[:d]
        if rng.random() < .3:
            Q = np.eye(D)[rng.permutation(D)[:d]]
        L = L @ Q
        rec.event('embedded')
    inv = np.linalg.cond(L)
    if inv > 1e4:
        rec.skip('basis is too skewed')
    flat = L if not embedded else np.linalg.cholesky(L @ L.T / s**2)
    want = ambiguous_free(rec, flat / (s if not embedded else 1))
    kw = {}
    if rng.random() < .25:
        kw['tr'] = bool(rng.random() < .8)
    if rng.random() < .25:
        kw['ph'] = bool(rng.random() < .8)
    if rng.random() < .3:
        kw['generators'] = True
    if rng.random() < .15:
        kw['verbose'] = True
    arg = L
    if np.max(np.abs(L - np.round(L))) < 1e-12 and rng.random() < .8:
        arg = np.round(L).astype(int)
        rec.event('integer input')
    if rng.random() < .3:
        arg = arg.tolist()
    rec.note(name=name, L=L, kw=kw, tag=tag)
    dig = ev.digest(arg)
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        G = qsymm.bravais_point_group(arg, **kw)
    rec.check(ev.digest(arg) == dig, 'periods unchanged')
    if kw.get('verbose'):
        rec.event('verbose')
    rec.check(all(isinstance(g, qsymm.PointGroupElement) for g in G), 'elements are PointGroupElements')
    if kw.get('generators'):
        G0 = list(G)
        rec.event('generators')
        M = [(ev.Rfloat(g.R), g.conjugate, g.antisymmetry) for g in G0]
        M = close(M, 400)
        rec.check(M is not None, 'generators generate a finite group')
    else:
        M = [(ev.Rfloat(g.R), g.conjugate, g.antisymmetry) for g in G]
    for x in M:
        rec.check(x[0].shape == (d, d), 'dimension of the operators', got=x[0].shape)
    flags = {(False, False)}
    if kw.get('tr'):
        rec.event('time reversal')
        flags |= {(not c, a) for c, a in flags}
        flags = flags | {(True, False)}
    if kw.get('ph'):
        rec.event('particle-hole')
        flags = flags | {(not c, not a) for c, a in flags}
    rec.check({(c, a) for _, c, a in M} == flags, 'time reversal and particle-hole', got={(c, a) for _, c, a in M}, want=flags)
    for f in flags:
        part = [R for R, c, a in M if (c, a) == f]
        rec.check(len(part) == len(want), 'number of operations', got=len(part), want=len(want), flags=f)
        if not embedded:
            for W in want:
                near = min(np.max(np.abs(W - R)) for R in part)
                rec.check(near < 1e-4, 'isometry of the lattice is in the group', missing=W, dist=near)
        else:
            key = lambda R: (round(float(np.linalg.det(R))), round(float(np.trace(R)), 3) + 0.)
            rec.check(sorted(map(key, part)) == sorted(map(key, want)), 'kinds of operations',
                      got=sorted(map(key, part)), want=sorted(map(key, want)))
            for R in part:
                rec.close(R @ R.T, np.eye(d), 'operations are orthogonal', tol=1e-6)
    if not kw.get('generators'):
        rec.check(all(g.U is None for g in G), 'no unitary part')
    rec.event('operations', len(M))
    rec.sig(name, d, D, len(want), tuple(map(str, tag)), tuple(sorted(kw)), len(G))


def ambiguous_free(rec, L):
    """Isometries, if their number does not depend on the tolerance."""
    W = latt.isometries(L, tol=1e-8)
    if len(latt.isometries(L, tol=2e-3)) != len(W):
        rec.skip('shape is close to a boundary')
    # faces of the Voronoi cell close to the tolerance of the library
    C, margin = latt.relevant(L)
    V = C @ np.asarray(L, float)
    g = np.sort(np.sum(V * V, axis=1))
    gap = np.diff(g) / g[-1]
    if margin < 1e-4 or np.any((gap > 1e-9) & (gap < 3e-4)):
        rec.skip('shape is close to a boundary')
    return W


def close(M, limit):
    key = lambda x: (tuple(np.round(x[0], 4).ravel() + 0.), x[1], x[2])
    seen = {key(x): x for x in M}
    front = list(M)
    while front:
        new = []
        for x in front:
            for g in M:
                y = (x[0] @ g[0], x[1] ^ g[1], x[2] ^ g[2])
                if key(y) not in seen:
                    # rounding may split values
                    if any(np.max(np.abs(y[0] - z[0])) < 1e-3 and y[1:] == z[1:] for z in seen.values()):
                        continue
                    seen[key(y)] = y
                    new.append(y)
                    if len(seen) > limit:
                        return None
        front = new
    return list(seen.values())


def bases(rng, rec):
    """The same lattice in other bases gives the same group; rotating the lattice conjugates it."""
    import qsymm
    name, L, tag, s = lattice(rng, rec)
    d = len(L)
    if np.linalg.cond(L) > 1e4:
        rec.skip('basis is too skewed')
    ambiguous_free(rec, L / s)
    T = gen.unimodular(rng, d, steps=3, size=1)
    Q = gen.orthogonal(rng, d)
    rec.note(L=L, T=T, Q=Q)
    A = [ev.Rfloat(g.R) for g in qsymm.bravais_point_group(L)]
    B = [ev.Rfloat(g.R) for g in qsymm.bravais_point_group(T @ L @ Q.T)]
    rec.check(len(A) == len(B), 'same number of operations in another basis and orientation', got=len(B), want=len(A))
    for R in A:
        rec.check(min(np.max(np.abs(Q @ R @ Q.T - W)) for W in B) < 1e-4, 'operations are rotated with the lattice', R=R)
    rec.sig('bases', name, d, len(A), tuple(map(str, tag)))


def rejected(rng, rec):
    import qsymm
    rec.raises(NotImplementedError, lambda: qsymm.bravais_point_group(np.eye(4)), 'four dimensional lattice')
    rec.raises(ValueError, lambda: qsymm.bravais_point_group(rng.normal(size=(3, 2))), 'more vectors than dimensions')
    rec.event('rejected')
    rec.sig('rejected')


FAMILIES = {
    'group': (group, 2500, 80000),
    'bases': (bases, 500, 10000),
    'rejected': (rejected, 3, 5),
}
