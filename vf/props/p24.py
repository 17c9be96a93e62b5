"""P24: decompositions of matrix Lie algebras."""
import itertools as it

import numpy as np

from .. import ev, gen
from . import p15

RULE = ('states are (algebra, dimension of the space, representation, number of generators, center, kind of generator basis, multiplicity); '
        'algebras are constructed with known structure, results are judged by commutators, spans and the known decomposition')
REQUIRED_EVENTS = ('structure constants', 'killing form', 'casimir', 'not semisimple rejected', 'separation', 'abelian', 'semisimple', 'mixed',
                   'generic generators', 'hermitian generators', 'complex combinations', 'non unitary basis', 'su(2)', 'su(3)', 'su(4)',
                   'so(3)', 'product', 'adapted basis', 'trivial multiplicity', 'standard basis', 'permuted basis', 'shifted standard basis',
                   'random combination', 'conjugate representation', 'incompatible rejected', 'not closed rejected', 'checked')
ASSUMPTIONS = ['generator bases have condition numbers below 100; generators of the symmetry adapted basis have eigenvalues separated by more than 1e-3']


def sun(d):
    """Hermitian traceless d x d matrices."""
    out = []
    for i in range(d):
        for j in range(i):
            E = np.zeros((d, d), complex)
            E[i, j] = E[j, i] = 1
            out.append(E)
            E = np.zeros((d, d), complex)
            E[i, j], E[j, i] = 1j, -1j
            out.append(E)
    for i in range(d - 1):
        E = np.zeros((d, d), complex)
        E[i, i], E[d - 1, d - 1] = 1, -1
        out.append(E)
    return out


def gellmann(d):
    out = [x / np.sqrt(2) for x in sun(d)[:d * (d - 1)]]
    for l in range(1, d):
        D = np.zeros((d, d), complex)
        for i in range(l):
            D[i, i] = 1
        D[l, l] = -l
        out.append(D / np.sqrt(l * (l + 1)))
    return out


def spin(twos):
    j = twos / 2
    m = j - np.arange(twos + 1)
    sz = np.diag(m).astype(complex)
    sp = np.zeros_like(sz)
    for i in range(twos):
        sp[i, i + 1] = np.sqrt(j * (j + 1) - m[i + 1] * (m[i + 1] + 1))
    return [(sp + sp.conj().T) / 2, (sp - sp.conj().T) / 2j, sz]


def so(n):
    out = []
    for i in range(n):
        for j in range(i):
            E = np.zeros((n, n), complex)
            E[i, j], E[j, i] = 1j, -1j
            out.append(E)
    return out


def dsum(*mats):
    n = sum(len(m) for m in mats)
    out = np.zeros((n, n), complex)
    k = 0
    for m in mats:
        out[k:k + len(m), k:k + len(m)] = m
        k += len(m)
    return out


def simple(rng, rec):
    """A list of matrices spanning a simple compact algebra in some representation (Hermitian)."""
    t = gen.choice(rng, ['su2', 'su2', 'su2', 'su3', 'su4', 'so3', 'so4', 'so5'])
    if t == 'su2':
        rec.event('su(2)')
        reps = [int(x) for x in rng.integers(0, 5, rng.integers(1, 3))]
        if max(reps) == 0:
            reps[0] = 1
        return 'su2' + str(sorted(reps)), [dsum(*x) for x in zip(*[spin(r) for r in reps])]
    if t in ('su3', 'su4'):
        d = int(t[-1])
        rec.event('su(%d)' % d)
        g = gellmann(d) if rng.random() < .5 else sun(d)
        parts = [g]
        if rng.random() < .4:
            parts.append([-x.conj() for x in g])
        if rng.random() < .3:
            parts.append([np.zeros((1, 1))] * len(g))
        if rng.random() < .2:
            parts.append([np.kron(x, np.eye(2)) for x in g])
        return t + str(len(parts)), [dsum(*x) for x in zip(*parts)]
    n = int(t[-1])
    if n == 3:
        rec.event('so(3)')
    g = so(n)
    if rng.random() < .3:
        g = [np.kron(x, np.eye(2)) for x in g]
    return t, g


def algebra(rng, rec):
    """(name, commuting factors as lists of generators, center generators) acting on one space."""
    kind = gen.choice(rng, ['simple', 'simple', 'product', 'reductive', 'reductive', 'abelian', 'tensor', 'parts'])
    if kind == 'simple':
        name, g = simple(rng, rec)
        return name, [g], []
    if kind == 'abelian':
        rec.event('abelian')
        n = int(rng.integers(1, 7))
        k = int(rng.integers(1, n + 1))
        while True:
            D = rng.integers(-2, 3, (k, n))
            if np.linalg.matrix_rank(D) == k:
                break
        return 'u1^%d' % k, [], [np.diag(d).astype(complex) for d in D]
    if kind == 'tensor':
        # sigma x 1 and 1 x sigma: commuting factors on one space
        rec.event('product')
        a, b = int(rng.integers(1, 3)), int(rng.integers(1, 4))
        A, B = spin(a), spin(b)
        c = [np.eye((a + 1) * (b + 1), dtype=complex)] if rng.random() < .4 else []
        return 'tensor', [[np.kron(x, np.eye(b + 1)) for x in A], [np.kron(np.eye(a + 1), x) for x in B]], c
    parts = []
    for _ in range(int(rng.integers(1, 3)) if kind != 'product' else 2):
        parts.append(simple(rng, rec))
    if kind == 'product':
        rec.event('product')
    sizes = [len(p[1][0]) for p in parts]
    extra = int(rng.integers(0, 3)) if kind != 'product' else 0
    n = sum(sizes) + extra
    factors, blocks = [], []
    o = 0
    for (nm, g), s in zip(parts, sizes):
        full = []
        for x in g:
            z = np.zeros((n, n), complex)
            z[o:o + s, o:o + s] = x
            full.append(z)
        factors.append(full)
        blocks.append((o, s))
        o += s
    for i in range(extra):
        blocks.append((o, 1))
        o += 1
    center = []
    if kind in ('reductive', 'parts'):
        # charges constant on each block
        k = int(rng.integers(1 if kind == 'reductive' else 0, len(blocks) + 1))
        while True:
            q = rng.integers(-2, 3, (k, len(blocks)))
            if k == 0 or np.linalg.matrix_rank(q) == k:
                break
        for row in q:
            z = np.zeros((n, n), complex)
            for c, (o, s) in zip(row, blocks):
                z[o:o + s, o:o + s] = c * np.eye(s)
            center.append(z)
    return kind + ''.join(p[0] for p in parts) + 'u%d' % len(center), factors, center


def generators(rng, rec, dmax=12, hermitian=None):
    for _ in range(50):
        name, factors, center = algebra(rng, rec)
        gens = [x for f in factors for x in f] + center
        if len(gens[0]) <= dmax and len(gens) <= 26:
            break
    else:
        name, factors, center = 'su2', [spin(1)], []
        gens = list(factors[0])
    n = len(gens[0])
    u = rng.random()
    S = np.eye(n, dtype=complex)
    tag = 'orig'
    if u < .5:
        S = gen.unitary(rng, n)
        tag = 'unitary'
    elif u < .65:
        S = gen.unitary(rng, n) @ np.diag(np.exp(rng.uniform(-.7, .7, n))) @ gen.unitary(rng, n)
        rec.event('non unitary basis')
        tag = 'similar'
    Si = np.linalg.inv(S)
    tr = lambda x: S @ x @ Si
    factors = [[tr(x) for x in f] for f in factors]
    center = [tr(x) for x in center]
    gens = np.array([x for f in factors for x in f] + center)
    m = len(gens)
    v = rng.random()
    comb = 'plain'
    if v < .5:
        C = rng.normal(size=(m, m))
        if rng.random() < .3:
            C = rng.integers(-2, 3, (m, m)).astype(float)
        if rng.random() < .3:
            C = C + 1j * rng.normal(size=(m, m))
            rec.event('complex combinations')
            comb = 'complex'
        else:
            comb = 'mixed'
        U_, s_, V_ = np.linalg.svd(C)
        C = U_ @ np.diag(np.exp(rng.uniform(-1, 1, m))) @ V_
        gens = np.tensordot(C, gens, axes=1)
        rec.event('generic generators')
    elif v < .7:
        gens = gens[rng.permutation(m)] * rng.uniform(.5, 2, m)[:, None, None]
        comb = 'scaled'
    if rng.random() < .2:
        gens = 1j * gens
        comb += 'i'
    if np.max(np.abs(gens - gens.conj().transpose(0, 2, 1))) < 1e-12:
        rec.event('hermitian generators')
    return name, factors, center, gens, (tag, comb)


def span(mats):
    V = np.array([np.asarray(x).ravel() for x in mats])
    U, s, vh = np.linalg.svd(V, full_matrices=False)
    return vh[s > 1e-9 * max(s[0], 1e-300)] if len(V) else V


def inside(rec, x, Q, msg):
    x = np.asarray(x).ravel()
    rest = x - (x @ Q.conj().T) @ Q if len(Q) else x
    rec.close(rest, np.zeros_like(rest), msg, tol=1e-7, scale=max(np.max(np.abs(x)), 1e-2))


def com(a, b):
    return a @ b - b @ a


def structure(rng, rec):
    from qsymm.symmetry_finder import struct_const, killing
    name, factors, center, gens, tag = generators(rng, rec)
    m, n = len(gens), len(gens[0])
    rec.note(name=name, tag=tag, gens=gens)
    d0 = ev.digest(gens)
    C = np.asarray(struct_const(gens if rng.random() < .7 else list(gens)))
    rec.check(C.shape == (m, m, m), 'shape of the structure constants', got=C.shape)
    for a in range(m):
        for b in range(m):
            rec.close(np.tensordot(C[a, b], gens, axes=1), com(gens[a], gens[b]), 'structure constants reproduce the commutator', tol=1e-7)
    rec.event('structure constants')
    K = np.asarray(killing(gens))
    rec.check(ev.digest(gens) == d0, 'generators unchanged')
    rec.check(K.shape == (m, m), 'shape of the Killing form', got=K.shape)
    # trace of the product in the adjoint representation, from coordinates
    V = gens.reshape(m, -1)
    P = np.linalg.pinv(V)
    ad = np.array([[com(gens[a], gens[b]).ravel() @ P for b in range(m)] for a in range(m)])   # ad[a][b] = coords of [a, b]
    want = np.einsum('abc,dcb->ad', ad, ad)
    rec.close(K, want, 'Killing form', tol=1e-7, scale=np.max(np.abs(want)) if np.any(want) else 1)
    rec.close(K, K.T, 'Killing form is symmetric', tol=1e-7, scale=max(1, np.max(np.abs(K))))
    # invariance
    x, y, z = rng.normal(size=(3, m))
    br = lambda u, v: com(np.tensordot(u, gens, axes=1), np.tensordot(v, gens, axes=1)).ravel() @ P
    rec.close(br(x, y) @ K @ z, x @ K @ br(y, z), 'Killing form is invariant', tol=1e-6,
              scale=1 + np.max(np.abs(K)) * np.linalg.norm(br(x, y)) * np.linalg.norm(z))
    rec.event('killing form')
    rec.sig('struct', name, n, m, tag)


def casimir_operator(rng, rec):
    from qsymm.symmetry_finder import casimir
    name, factors, center, gens, tag = generators(rng, rec)
    rec.note(name=name, tag=tag, gens=gens)
    if center:
        rec.raises(ValueError, lambda: casimir(gens), 'Casimir operator of an algebra with a center')
        rec.event('not semisimple rejected')
        rec.sig('casimir rejected', name)
        return
    m = len(gens)
    V = gens.reshape(m, -1)
    P = np.linalg.pinv(V)
    ad = np.array([[com(gens[a], gens[b]).ravel() @ P for b in range(m)] for a in range(m)])
    K = np.einsum('abc,dcb->ad', ad, ad)
    s = np.linalg.svd(K, compute_uv=False)
    if s[-1] < 1e-4:
        rec.skip('determinant of the Killing form is nearly singular')
    C = np.asarray(casimir(gens))
    for g in gens:
        rec.close(com(C, g), np.zeros_like(C), 'Casimir operator commutes with the generators', tol=1e-6,
                  scale=1 + np.max(np.abs(C)) * np.max(np.abs(g)))
    Ki = np.linalg.inv(K)
    want = sum(Ki[a, b] * gens[a] @ gens[b] for a in range(m) for b in range(m))
    rec.close(C, want, 'Casimir operator', tol=1e-6)
    # independent of the basis of generators, trace is the dimension of the algebra for the adjoint representation
    O = rng.normal(size=(m, m)) + 2 * np.eye(m)
    if np.linalg.cond(O) < 30 and np.linalg.svd(O @ K @ O.T, compute_uv=False)[-1] > 1e-4:
        rec.close(casimir(np.tensordot(O, gens, axes=1)), C, 'Casimir operator does not depend on the generators', tol=1e-5)
    rec.event('casimir')
    rec.sig('casimir', name, len(C), m, tag)


def separation(rng, rec):
    from qsymm.symmetry_finder import separate_lie_algebra
    name, factors, center, gens, tag = generators(rng, rec)
    m, n = len(gens), len(gens[0])
    # the decision of the library is absolute: keep the Killing form away from the tolerance
    V = gens.reshape(m, -1)
    P = np.linalg.pinv(V)
    ad = np.array([[com(gens[a], gens[b]).ravel() @ P for b in range(m)] for a in range(m)])
    K = np.einsum('abc,dcb->ad', ad, ad)
    s = np.linalg.svd(K, compute_uv=False)
    if np.any((s > 1e-9) & (s < 1e-4)):
        rec.skip('Killing form is nearly degenerate')
    rec.note(name=name, tag=tag, gens=gens)
    d0 = ev.digest(gens)
    c, ss = separate_lie_algebra(gens)
    rec.check(ev.digest(gens) == d0, 'generators unchanged')
    ms = sum(len(f) for f in factors)
    c, ss = np.asarray(c), np.asarray(ss)
    rec.check(len(c) == len(center) and len(ss) == ms, 'dimensions', got=(len(c), len(ss)), want=(len(center), ms))
    rec.check(c.shape[1:] == (n, n) and ss.shape[1:] == (n, n), 'shapes')
    full = span(gens)
    for x in it.chain(c, ss):
        inside(rec, x, full, 'part of the algebra')
    rec.check(len(span(list(c) + list(ss))) == m, 'parts are complementary')
    for x in c:
        for g in gens:
            rec.close(com(x, g), np.zeros((n, n)), 'center commutes with everything', tol=1e-6)
    real_herm = np.max(np.abs(gens - gens.conj().transpose(0, 2, 1))) < 1e-12
    if len(c):
        Q = span(center)
        for x in c:
            inside(rec, x, Q, 'center')
    if ms:
        Q = span([x for f in factors for x in f])
        for x in ss:
            inside(rec, x, Q, 'semisimple part')
        Q = span(ss)
        for x in ss:
            for g in gens:
                inside(rec, com(g, x), Q, 'semisimple part is an ideal')
    if real_herm:
        for x in it.chain(c, ss):
            rec.close(x, x.conj().T, 'parts are Hermitian', tol=1e-9)
    rec.event('separation')
    rec.event('semisimple' if not center else 'mixed' if factors else 'abelian')
    rec.sig('separate', name, n, m, tag)


def adapted(rng, rec):
    from qsymm.symmetry_finder import symmetry_adapted_sun
    d = int(gen.choice(rng, [2, 2, 2, 3, 3, 4]))
    n = int(gen.choice(rng, [1, 2, 2, 3, 3, 4, 5]))
    if d * n > 16:
        n = 2
    N = n * d
    style = gen.choice(rng, ['standard', 'gellmann', 'random', 'random', 'shifted', 'permuted', 'scaled', 'sparse'])
    base = sun(d)
    if style == 'gellmann':
        base = gellmann(d)
    if style in ('standard', 'gellmann', 'scaled'):
        rec.event('standard basis')
    if rng.random() < .3:
        base = [-x.conj() for x in base]
        rec.event('conjugate representation')
    if style == 'random':
        C = rng.normal(size=(len(base),) * 2)
        base = list(np.tensordot(C, np.array(base), axes=1))
        rec.event('random combination')
    elif style == 'permuted':
        base = [base[i] for i in rng.permutation(len(base))]
        rec.event('permuted basis')
    elif style == 'scaled':
        base = [x * s for x, s in zip(base, rng.uniform(.3, 3, len(base)))]
    elif style == 'sparse':
        C = rng.integers(-1, 2, (len(base),) * 2) * (rng.random((len(base),) * 2) < .4) + np.eye(len(base))
        if abs(np.linalg.det(C)) < .5:
            C = np.eye(len(base))
        base = list(np.tensordot(C, np.array(base), axes=1))
    elif style == 'shifted':
        # conjugated standard basis: sub-blocks with the same spectrum
        w = gen.unitary(rng, d)
        base = [w @ x @ w.conj().T for x in base]
        base = base[::-1] if rng.random() < .5 else base
        rec.event('shifted standard basis')
    if rng.random() < .3:
        # the unit of the generators does not matter
        unit = 10. ** float(rng.uniform(-2.5, 2))
        base = [x * unit for x in base]
        rec.event('small or large generators')
    if np.linalg.cond(np.array([b.ravel() for b in base])) > 100:
        rec.skip('generators nearly dependent')
    for b in base:
        w = np.linalg.eigvalsh(b)
        D = np.diff(w)
        if np.any((D > 1e-9) & (D < 1e-3)):
            rec.skip('eigenvalues nearly degenerate')
    # also after the first splitting the remaining spectra have to be clear cut
    W = np.eye(N)
    if rng.random() < .8:
        W = gen.unitary(rng, N)
    elif rng.random() < .5:
        W = np.eye(N)[rng.permutation(N)]
    gens = np.array([W @ np.kron(b, np.eye(n)) @ W.conj().T for b in base])
    if np.max(np.abs(gens.imag)) < 1e-13 and rng.random() < .5:
        gens = gens.real
    kw = {'check': True} if rng.random() < .4 else {}
    rec.note(d=d, n=n, style=style, gens=gens, kw=kw)
    d0 = ev.digest(gens)
    Ps = symmetry_adapted_sun(gens, **kw)
    if kw:
        rec.event('checked')
    rec.check(ev.digest(gens) == d0, 'generators unchanged')
    Ps = np.asarray(Ps)
    rec.check(Ps.shape == (d, N, n), 'shape of the adapted basis', got=Ps.shape)
    U = np.hstack(Ps)
    rec.close(U.conj().T @ U, np.eye(N), 'unitary basis', tol=1e-8)
    for g in gens:
        t = (U.conj().T @ g @ U).reshape(d, n, d, n)
        L = np.einsum('aibi->ab', t) / n
        rec.close(t.transpose(0, 2, 1, 3), np.einsum('ab,ij->abij', L, np.eye(n)), 'generator is of the form L x 1', tol=1e-6)
    # documented formula produces elements of the algebra (and the identity)
    X = gen.hermitian(rng, d)
    Y = np.einsum('aij,ab,bkj->ik', Ps, X, Ps.conj())
    Q = span(list(gens) + [np.eye(N)])
    inside(rec, Y, Q, 'symmetry spanned by the generators')
    rec.event('adapted basis')
    if n == 1:
        rec.event('trivial multiplicity')
    rec.sig('sun', d, n, style, np.isrealobj(gens), bool(kw))


def rejected(rng, rec):
    from qsymm.symmetry_finder import symmetry_adapted_sun, struct_const
    g = np.array([np.kron(x, np.eye(2)) for x in sun(2)])
    rec.raises(ValueError, lambda: symmetry_adapted_sun(g[:2]), 'number of generators')
    rec.raises(ValueError, lambda: symmetry_adapted_sun(np.array(spin(2))), 'dimension is not a multiple')
    rec.event('incompatible rejected')
    k = int(rng.integers(2))
    s = spin(int(rng.integers(1, 4)))
    bad = np.array([s[k], s[k + 1]])
    rec.raises(ValueError, lambda: struct_const(bad), 'matrices not closed under commutation')
    rec.event('not closed rejected')
    rec.sig('rejected', k)


FAMILIES = {
    'structure': (structure, 900, 20000),
    'casimir': (casimir_operator, 700, 15000),
    'separation': (separation, 1200, 25000),
    'adapted': (adapted, 3000, 60000),
    'rejected': (rejected, 10, 50),
}
