"""P23: linear algebra routines."""
import itertools as it
import warnings
from fractions import Fraction

import numpy as np
import scipy.sparse as sp
import scipy.sparse.linalg as sla

from .. import ev, gen, mon, pipelines
from ..core import Skip

RULE = ('states are (routine, shape, rank or solution dimension, scalar type, options, sparse or dense); solution spaces are compared '
        'with independently computed ones (SVD of Kronecker systems, exact rational elimination, constructed ground truth)')
REQUIRED_EVENTS = ('null space', 'sparse null space', 'empty null space', 'zero matrix', 'complement', 'other atol', 'limited number', 'wide', 'tall',
                   'equation', 'sparse equation', 'hermitian', 'traceless', 'conjugate', 'mixed conjugation', 'no solution', 'degenerate equation',
                   'simultaneous', 'degenerate common spaces', 'non-hermitian normal', 'not commuting rejected', 'not normal rejected',
                   'row reduction', 'rank deficient', 'transformation', 'sparsified', 'real and imaginary', 'dropped',
                   'matrix basis', 'close', 'not close', 'operator arguments', 'sparse arguments', 'proportional', 'not proportional',
                   'family vectors', 'online session', 'rejected')
ASSUMPTIONS = ['nonzero singular values are at least 100 times larger than the tolerance and exact zeros below 1e-12',
               'eigenvalues of the matrices to diagonalise are equal or differ by more than 1e-2',
               'pivots of the row reduction are zero or larger than three times the tolerance']

TYPES = (sp.csr_matrix, sp.csc_matrix, sp.coo_matrix)


def scalar(rng, shape, kind):
    A = rng.normal(size=shape)
    if kind == 'complex':
        A = A + 1j * rng.normal(size=shape)
    elif kind == 'integer':
        A = rng.integers(-3, 4, shape).astype(float)
    return A


def rank_matrix(rng, m, n, r, kind):
    if r == 0:
        return np.zeros((m, n), complex if kind == 'complex' else float)
    style = gen.choice(rng, ['product', 'svd', 'sparse', 'rows'])
    if style == 'product':
        A = scalar(rng, (m, r), kind) @ scalar(rng, (r, n), kind)
    elif style == 'svd':
        q = np.linalg.qr(scalar(rng, (m, m), 'complex' if kind == 'complex' else 'real'))[0][:, :r]
        w = np.linalg.qr(scalar(rng, (n, n), 'complex' if kind == 'complex' else 'real'))[0][:r]
        A = q @ np.diag(gen.choice(rng, [1., .3, 2.]) * np.exp(rng.uniform(-2, 2, r) * rng.integers(0, 2))) @ w
    elif style == 'sparse':
        A = np.zeros((m, n), complex if kind == 'complex' else float)
        for i, j in zip(rng.permutation(m)[:r], rng.permutation(n)[:r]):
            A[i, j] = gen.choice(rng, [1, -1, 2, .5])
        if kind == 'complex':
            A = A * np.exp(1j * rng.uniform(0, 6, m))[:, None]
        for _ in range(2):
            i, j = rng.integers(0, m, 2)
            if i != j:
                A[i] = A[i] + gen.choice(rng, [1, -1, 2]) * A[j]
    else:
        R = scalar(rng, (r, n), kind)
        A = R[rng.integers(0, r, m)]
    return A


def spectrum(rec, A, atol):
    if A.size == 0:
        return 0
    s = np.linalg.svd(A, compute_uv=False)
    if np.any((s > 1e-11) & (s < 1e-2)):
        rec.skip('singular values not separated')
    return int(np.sum(s > 1e-6))


def null_space(rng, rec):
    from qsymm.linalg import nullspace
    big = rng.random() < .08
    m, n = (int(x) for x in rng.integers(1, 60 if big else 14, 2))
    if rng.random() < .2:
        m = n
    r = int(rng.integers(0, min(m, n) + 1))
    if rng.random() < .15:
        r = 0
    kind = gen.choice(rng, ['real', 'complex', 'complex', 'integer'])
    A = rank_matrix(rng, m, n, r, kind)
    small = 0
    kw = {}
    atol = 1e-6
    r = spectrum(rec, A, atol)
    if rng.random() < .25:
        atol = kw['atol'] = float(gen.choice(rng, [1e-3, 1e-8, 1e-4]))
        rec.event('other atol')
        if atol >= 1e-4 and rng.random() < .6:
            # singular values well below the tolerance count as zero
            N = rng.normal(size=A.shape)
            A = A + N * (atol / 300 / np.linalg.norm(N))
            small = atol / 100
    mode = gen.choice(rng, ['dense', 'dense', 'sparse', 'sparse flag', 'dense flag'])
    arg = A
    if np.isrealobj(A) and np.array_equal(A, np.round(A)) and rng.random() < .5:
        arg = A.astype(int)
    if mode == 'sparse' or (mode == 'sparse flag' and rng.random() < .5) or (mode == 'dense flag' and rng.random() < .5):
        arg = gen.choice(rng, TYPES)(arg)
        if rng.random() < .3 and isinstance(arg, (sp.csr_matrix, sp.csc_matrix)):
            # explicitly stored zeros
            arg = arg.copy()
            arg.data = arg.data * (rng.random(len(arg.data)) < 1.1)
    sparse = mode in ('sparse', 'sparse flag')
    if 'flag' in mode:
        kw['sparse'] = sparse
    want = n - r
    if sparse:
        if rng.random() < .5:
            k = kw['k_max'] = int(gen.choice(rng, [-1, -2, -3, -7, -50, 1, 2, 5, 60]))
            if k > 0 and r > 0:
                if k < want:
                    rec.event('limited number')
                want = min(want, k)
    comp = rng.random() < .4
    if comp:
        kw['return_complement'] = True
    rec.note(A=A, kw=kw, type=type(arg).__name__, rank=r, kind=kind)
    d0 = ev.digest(arg)
    res = nullspace(arg, **kw)
    rec.check(ev.digest(arg) == d0, 'input unchanged')
    nsc = None
    if comp and not sparse:
        ns, nsc = res
    else:
        ns = res
    ns = np.asarray(ns)
    rec.check(ns.shape == (want, n), 'shape of the null space', got=ns.shape, want=(want, n))
    rec.close(ns @ ns.conj().T, np.eye(want), 'orthonormal', tol=1e-8 if not sparse else 1e-7)
    rec.close(A @ ns.T, np.zeros((m, want)), 'annihilated by the matrix', tol=max(1e-7, small) if sparse else max(1e-9, small))
    if nsc is not None:
        rec.check(nsc.shape == (r, n), 'shape of the complement', got=nsc.shape)
        full = np.vstack((ns, nsc))
        rec.close(full @ full.conj().T, np.eye(n), 'orthogonal complement', tol=1e-8)
        rec.event('complement')
    if not np.iscomplexobj(A):
        rec.check(np.max(np.abs(np.imag(ns)), initial=0) < 1e-12, 'real null space of a real matrix')
    rec.event('sparse null space' if sparse else 'null space')
    if want == 0:
        rec.event('empty null space')
    if r == 0:
        rec.event('zero matrix')
    if m != n:
        rec.event('wide' if m < n else 'tall')
    rec.sig('nullspace', m, n, r, kind, mode, tuple(sorted(kw.items())))


def structured(rng, n, nmat, kind):
    """Matrices with a nontrivial commutant, and the same in another basis."""
    style = gen.choice(rng, ['blocks', 'blocks', 'copies', 'diagonal', 'generic', 'zero', 'pauli', 'scalar'])
    herm = rng.random() < .7

    def rnd(k):
        X = scalar(rng, (k, k), kind)
        return X + X.conj().T if herm else X
    out = []
    if style == 'copies' and n >= 2:
        q = int(gen.choice(rng, [d for d in range(1, n + 1) if n % d == 0]))
        out = [np.kron(rnd(q), np.eye(n // q)) for _ in range(nmat)]
    elif style == 'blocks':
        cut = int(rng.integers(0, n + 1))
        for _ in range(nmat):
            X = np.zeros((n, n), complex)
            X[:cut, :cut] = rnd(cut)
            X[cut:, cut:] = rnd(n - cut)
            out.append(X)
        if 2 * cut == n and rng.random() < .6:
            for X in out:
                X[cut:, cut:] = X[:cut, :cut]
    elif style == 'diagonal':
        out = [np.diag(rng.integers(-1, 2, n)).astype(complex) for _ in range(nmat)]
    elif style == 'zero':
        out = [np.zeros((n, n), complex)] * nmat
    elif style == 'scalar':
        out = [np.eye(n, dtype=complex) * gen.choice(rng, [1, -1, 2]) for _ in range(nmat)]
    elif style == 'pauli' and n in (2, 4):
        P = [np.eye(2), np.array([[0, 1], [1, 0]]), np.array([[0, -1j], [1j, 0]]), np.diag([1, -1])]
        pick = lambda: P[rng.integers(4)]
        out = [pick() if n == 2 else np.kron(pick(), pick()) for _ in range(nmat)]
    else:
        out = [rnd(n) for _ in range(nmat)]
    return style, herm, out


def equation(rng, rec):
    from qsymm.linalg import solve_mat_eqn
    n = int(gen.choice(rng, [1, 2, 2, 3, 3, 4, 4, 5]))
    nmat = int(rng.integers(1, 4))
    kind = gen.choice(rng, ['real', 'complex', 'complex', 'integer'])
    style, herm, HL = structured(rng, n, nmat, kind)
    kw = {}
    hermitian = bool(rng.random() < .45)
    traceless = bool(rng.random() < .35)
    u = rng.random()
    conj = [False] * nmat
    if u < .4:
        conj = [True] * nmat
        kw['conjugate'] = True if rng.random() < .5 else list(conj)
    elif u < .55:
        conj = [bool(x) for x in rng.integers(0, 2, nmat)]
        kw['conjugate'] = list(conj)
        if len(set(conj)) > 1:
            rec.event('mixed conjugation')
    elif u < .65:
        kw['conjugate'] = False
    # right hand sides related by a hidden solution
    v = rng.random()
    HR = None
    if v < .45:
        S = gen.unitary(rng, n) if rng.random() < .7 else scalar(rng, (n, n), 'complex') + 2 * np.eye(n)
        if hermitian and rng.random() < .8:
            w, U = np.linalg.eigh(S + S.conj().T)
            S = U @ np.diag(np.sign(w)) @ U.conj().T
        if traceless and rng.random() < .5:
            S = S - np.trace(S) / n * np.eye(n)
        if np.linalg.cond(S) > 20:
            S = np.eye(n)
        HR = []
        for h, c in zip(HL, conj):
            # S h = hR S or S h = hR S^*
            HR.append(S @ h @ np.linalg.inv(S.conj() if c else S))
    elif v < .55:
        HR = [-h for h in HL]
    elif v < .65:
        HR = structured(rng, n, nmat, kind)[2]
    elif v < .72:
        HR = [h.conj() for h in HL]
    if hermitian:
        kw['hermitian'] = True
        rec.event('hermitian')
    if traceless:
        kw['traceless'] = True
        rec.event('traceless')
    R = HR if HR is not None else HL
    # independent: real linear system for (Re X, Im X)
    cols = []
    units = []
    for i in range(n):
        for j in range(n):
            for c in (1, 1j):
                E = np.zeros((n, n), complex)
                E[i, j] = c
                units.append(E)
    rows = []

    def build(star):
        cols = []
        for E in units:
            parts = [E @ h - r @ (star(E) if c else E) for h, r, c in zip(HL, R, conj)]
            if hermitian:
                parts.append(E - E.conj().T)
            if traceless:
                parts.append(np.trace(E).reshape(1, 1))
            z = np.concatenate([np.asarray(p).ravel() for p in parts])
            cols.append(np.concatenate((z.real, z.imag)))
        A = np.array(cols).T
        _, s, vh = np.linalg.svd(A)
        s = np.concatenate((s, np.zeros(len(vh) - len(s))))
        if np.any((s > 1e-10) & (s < 1e-3)):
            raise Skip('rank not clear cut')
        return vh[s < 1e-8]
    sol = build(np.conj)
    mode = gen.choice(rng, ['dense', 'dense', 'sparse', 'sparse flag'])
    sparse = mode != 'dense'
    if sparse:
        kw['sparse'] = True
        if mode == 'sparse' and rng.random() < .6:
            kw.pop('sparse')
    typ = (lambda x: gen.choice(rng, TYPES)(x)) if mode == 'sparse' else (lambda x: x)
    A1 = [typ(h) for h in HL]
    A2 = None if HR is None else [typ(h) for h in HR]
    if mode != 'sparse' and rng.random() < .5:
        A1 = np.array(A1)
        A2 = None if A2 is None else np.array(A2)
    args = [A1] if A2 is None else [A1, A2]
    complexlinear = not hermitian and not any(conj)
    dim = len(sol) // 2 if complexlinear else len(sol)
    k = None
    if sparse and rng.random() < .3:
        k = kw['k_max'] = int(gen.choice(rng, [-1, -3, 1, 2, 50]))
    rec.note(HL=HL, HR=HR, kw=kw, mode=mode, style=style)
    d0 = ev.digest(args)
    X = solve_mat_eqn(*args, **kw)
    rec.check(ev.digest(args) == d0, 'input unchanged')
    X = [ev.dense(x) for x in X]
    key = None
    if any(conj) and not hermitian:
        key = 'conjugate-nonhermitian'
    scale = 1 + max(np.max(np.abs(h)) for h in list(HL) + list(R))
    if key:
        # listed finding: solves the complex linear equation with the transposed X
        bad = [x for x in X for h, r, c in zip(HL, R, conj) if np.max(np.abs(x @ h - r @ (x.conj() if c else x))) > 1e-7 * scale]
        if bad:
            solt = build(np.transpose)
            is_listed = all(np.max(np.abs(x @ h - r @ (x.T if c else x))) < 1e-6 * scale for x in X for h, r, c in zip(HL, R, conj)) \
                and (k is not None or len(X) == len(solt) // 2)
            if is_listed:
                rec.known_or(key, False, 'solutions of the conjugated equation')
                rec.event('conjugate')
                return
        elif len(X) != dim:
            solt = build(np.transpose)
            if len(X) == len(solt) // 2 or k is not None:
                rec.known_or(key, False, 'number of solutions of the conjugated equation')
                return
    for x in X:
        rec.check(x.shape == (n, n), 'shape of a solution')
        for h, r, c in zip(HL, R, conj):
            rec.close(x @ h, r @ (x.conj() if c else x), 'solution satisfies the equation', tol=1e-6, scale=scale)
        if hermitian:
            rec.close(x, x.conj().T, 'Hermitian solution', tol=1e-8)
        if traceless:
            rec.close(np.trace(x), 0., 'traceless solution', tol=1e-8)
    if k is not None and k > 0 and dim > k and any(np.max(np.abs(h)) > 1e-9 for h in list(HL) + list(R)):
        rec.check(len(X) in (k, dim), 'number of solutions', got=len(X), want=k)
    else:
        rec.check(len(X) == dim, 'number of solutions', got=len(X), want=dim)
    if len(X):
        V = np.array([x.ravel() for x in X])
        if not complexlinear:
            V = np.hstack((V.real, V.imag))
        s = np.linalg.svd(V, compute_uv=False)
        rec.check(len(s) == len(V) and s[-1] > 1e-6, 'solutions are independent', s=s)
    else:
        rec.event('no solution')
    if any(conj):
        rec.event('conjugate')
    if style in ('zero', 'scalar'):
        rec.event('degenerate equation')
    rec.event('sparse equation' if sparse else 'equation')
    rec.sig('eqn', n, nmat, style, kind, dim, mode, tuple(conj), hermitian, traceless, k, v < .45)


def simultaneous(rng, rec):
    from qsymm.linalg import simult_diag
    n = int(gen.choice(rng, [1, 2, 3, 4, 5, 6, 8, 12]))
    nmat = int(rng.integers(1, 5))
    real = rng.random() < .25
    U = np.linalg.qr(scalar(rng, (n, n), 'real' if real else 'complex'))[0]
    if rng.random() < .15:
        U = np.eye(n)[rng.permutation(n)]
    evs = []
    nonherm = False
    for _ in range(nmat):
        k = gen.choice(rng, ['pm', 'grid', 'real', 'unitary', 'complex', 'const', 'zero', 'imag'])
        if k == 'pm':
            e = rng.choice([1, -1], n)
        elif k == 'grid':
            e = rng.integers(-2, 3, n) * gen.choice(rng, [1., .1, 10.])
        elif k == 'real':
            e = rng.uniform(-3, 3, n)[rng.integers(0, n, n)]
        elif k == 'unitary':
            e = np.exp(2j * np.pi * rng.integers(0, 6, n) / 6)
        elif k == 'complex':
            e = rng.integers(-1, 2, n) + 1j * rng.integers(-1, 2, n)
        elif k == 'const':
            e = np.full(n, gen.choice(rng, [1, -.5, 1j]))
        elif k == 'imag':
            e = 1j * rng.integers(-2, 3, n)
        else:
            e = np.zeros(n)
        e = np.asarray(e, complex)
        D = np.abs(e[:, None] - e[None])
        if np.any((D > 1e-9) & (D < 1e-2)):
            e = np.round(e, 1)
        if real:
            e = e.real + 0j
        evs.append(e)
        if np.max(np.abs(e.imag)) > 0:
            nonherm = True
    mats = [U @ np.diag(e) @ U.conj().T for e in evs]
    if real:
        mats = [m.real for m in mats]
    if rng.random() < .3:
        mats = [m + 1e-13 * rng.normal(size=m.shape) for m in mats]
    groups = {}
    for i in range(n):
        key = tuple(np.round(e[i], 6) + 0. for e in evs)
        groups.setdefault(key, []).append(i)
    args = list(mats) if rng.random() < .5 else np.array(mats)
    kw = {}
    if rng.random() < .4:
        kw['checks'] = int(rng.integers(0, 3))
    if rng.random() < .3:
        kw['tol'] = float(gen.choice(rng, [1e-6, 1e-5, 1e-4, 1e-8]))
    rec.note(evs=evs, U=U, kw=kw)
    d0 = ev.digest(args)
    Ps = simult_diag(args, **kw)
    rec.check(ev.digest(args) == d0, 'input unchanged')
    rec.check(all(P.ndim == 2 and P.shape[0] == n for P in Ps), 'shapes')
    V = np.hstack(Ps)
    rec.check(V.shape == (n, n), 'complete set of eigenvectors', got=V.shape)
    rec.close(V.conj().T @ V, np.eye(n), 'orthonormal', tol=1e-9)
    seen = []
    for P in Ps:
        key = []
        for m in mats:
            b = P.conj().T @ m @ P
            key.append(np.trace(b) / len(b))
            rec.close(b, key[-1] * np.eye(len(b)), 'common eigenspace', tol=1e-7)
            rec.close(m @ P, P * key[-1], 'eigenvectors', tol=1e-7)
        seen.append(np.array(key))
    for a, b in it.combinations(seen, 2):
        rec.check(np.max(np.abs(a - b)) > 1e-3, 'eigenspaces differ in some eigenvalue', a=a, b=b)
    rec.check(sorted(P.shape[1] for P in Ps) == sorted(map(len, groups.values())), 'multiplicities')
    rec.event('simultaneous')
    if max(map(len, groups.values())) > 1:
        rec.event('degenerate common spaces')
    if nonherm:
        rec.event('non-hermitian normal')
    rec.sig('simult', n, nmat, len(groups), real, nonherm, tuple(sorted(map(len, groups.values()))), tuple(sorted(kw.items())))


def not_diagonalizable(rng, rec):
    from qsymm.linalg import simult_diag, solve_mat_eqn, nullspace
    n = int(rng.integers(2, 6))
    A, B = gen.hermitian(rng, n), gen.hermitian(rng, n)
    rec.raises(ValueError, lambda: simult_diag([A, B]), 'matrices that do not commute')
    rec.event('not commuting rejected')
    N = np.triu(scalar(rng, (n, n), 'complex')) + np.eye(n, k=1) * 2
    rec.raises(ValueError, lambda: simult_diag([N]), 'matrix that is not normal')
    rec.raises(ValueError, lambda: simult_diag([np.eye(n), N]), 'second matrix is not normal')
    rec.event('not normal rejected')
    rec.raises(ValueError, lambda: solve_mat_eqn([A], [A, B]), 'different numbers of matrices')
    rec.raises(ValueError, lambda: solve_mat_eqn([A], [np.eye(n + 1)]), 'different shapes')
    rec.raises(ValueError, lambda: solve_mat_eqn([A[:-1]], [B[:-1]]), 'matrix that is not square')
    rec.raises(ValueError, lambda: solve_mat_eqn([A, B], conjugate=[True]), 'length of the conjugation list')
    rec.raises(ValueError, lambda: nullspace(sp.csr_matrix(A), k_max=0), 'zero k_max')
    rec.event('rejected')
    rec.sig('rejected', n)


def exact_rref(M, rtol):
    """Exact elimination with partial pivoting of a list of lists of (re, im) Fractions; smallest pivot and largest discarded relative to max."""
    M = [list(r) for r in M]
    rows, cols = len(M), len(M[0])
    n2 = lambda z: z[0] * z[0] + z[1] * z[1]
    mx = max(n2(z) for r in M for z in r)
    mul = lambda a, b: (a[0] * b[0] - a[1] * b[1], a[0] * b[1] + a[1] * b[0])
    lead, piv, smallest = 0, [], 1e9
    for r in range(rows):
        while lead < cols:
            i = max(range(r, rows), key=lambda q: n2(M[q][lead]))
            if n2(M[i][lead]) == 0:
                lead += 1
                continue
            break
        else:
            break
        smallest = min(smallest, float(n2(M[i][lead]) / mx)**.5)
        M[i], M[r] = M[r], M[i]
        p = M[r][lead]
        q = n2(p)
        inv = (p[0] / q, -p[1] / q)
        M[r] = [mul(z, inv) for z in M[r]]
        for k in range(rows):
            if k != r and n2(M[k][lead]):
                f = M[k][lead]
                M[k] = [(a[0] - mul(f, b)[0], a[1] - mul(f, b)[1]) for a, b in zip(M[k], M[r])]
        piv.append(lead)
        lead += 1
    return np.array([[complex(float(z[0]), float(z[1])) for z in r] for r in M]), piv, smallest


def integer_matrix(rng, cplx=None):
    rows, cols = (int(x) for x in rng.integers(1, 7, 2))
    r = int(rng.integers(0, min(rows, cols) + 1)) if rng.random() < .6 else min(rows, cols)
    cplx = rng.random() < .4 if cplx is None else cplx
    den = int(gen.choice(rng, [1, 1, 2, 4]))

    def ints(shape):
        p = rng.integers(-2, 3, shape) * (rng.random(shape) < .7)
        return p + 1j * (rng.integers(-2, 3, shape) * (rng.random(shape) < .5)) if cplx else p + 0j
    M = ints((rows, r)) @ ints((r, cols)) if r < min(rows, cols) else ints((rows, cols))
    F = [[(Fraction(int(z.real), den), Fraction(int(z.imag), den)) for z in row] for row in M]
    return M / den, F


def reduction(rng, rec):
    from qsymm.linalg import rref
    M, F = integer_matrix(rng)
    if not np.iscomplex(M).any() and rng.random() < .6:
        M = M.real
        if np.all(M == np.round(M)) and rng.random() < .4:
            M = M.astype(int)
    kw = {}
    rtol = 1e-3
    if rng.random() < .4:
        rtol = kw['rtol'] = float(gen.choice(rng, [1e-3, 1e-2, 1e-5, 1e-6]))
    S = bool(rng.random() < .5)
    if S:
        kw['return_S'] = True
    zero = not np.any(M)
    if zero:
        want, piv, smallest = np.array(M), [], 1
    else:
        want, piv, smallest = exact_rref(F, rtol)
    if smallest < 3 * rtol:
        rec.skip('pivots are not clear cut')
    scale = 1.
    if rng.random() < .3 and not np.issubdtype(M.dtype, np.integer):
        scale = 10.**float(rng.integers(-3, 5))
        M = M * scale
    rec.note(M=M, kw=kw)
    d0 = ev.digest(M)
    res = rref(M, **kw)
    rec.check(ev.digest(M) == d0, 'input unchanged')
    red, T = res if S else (res, None)
    rec.close(red, want, 'reduced row echelon form', tol=1e-9)
    if S:
        rec.close(T @ M, red, 'transformation produces the reduced matrix', tol=1e-9, scale=1 + np.max(np.abs(T)) * np.max(np.abs(M)))
        rec.check(np.linalg.cond(T) < 1e9, 'transformation is invertible')
        rec.event('transformation')
    rec.event('row reduction')
    if len(piv) < len(M):
        rec.event('rank deficient')
    rec.sig('rref', M.shape, len(piv), tuple(piv), str(M.dtype), rtol, S)


def generic_reduction(rng, rec):
    """Row reduction of generic float matrices with dependent rows and small noise."""
    from qsymm.linalg import rref
    m, n = (int(x) for x in rng.integers(1, 8, 2))
    r = int(rng.integers(1, min(m, n) + 1))
    kind = gen.choice(rng, ['real', 'complex'])
    # echelon form with known pivots, mixed by an invertible matrix
    piv = np.sort(rng.permutation(n)[:r])
    E = scalar(rng, (r, n), kind)
    for i, p in enumerate(piv):
        E[i, :p] = 0
        E[:, p] = 0
        E[i, p] = 1
    E = np.vstack((E, np.zeros((m - r, n))))
    T = scalar(rng, (m, m), kind)
    U, s, V = np.linalg.svd(T)
    T = U @ np.diag(np.exp(rng.uniform(-1, 1, m))) @ V
    M = T @ E
    noisy = rng.random() < .4
    if noisy:
        M = M + 1e-10 * rng.normal(size=M.shape)
    # every pivot chosen on the way
    A = np.array(M)
    for i, p in enumerate(piv):
        k = np.argmax(np.abs(A[i:, p])) + i
        if np.abs(A[k, p]) < 5e-3 * np.max(np.abs(M)):
            rec.skip('pivots are not clear cut')
        A[[i, k]] = A[[k, i]]
        A[i] = A[i] / A[i, p]
        for q in range(m):
            if q != i:
                A[q] = A[q] - A[q, p] * A[i]
    rec.note(M=M, piv=piv)
    red, S = rref(M, return_S=True)
    rec.close(red, E, 'reduced row echelon form', tol=1e-5 if noisy else 1e-9, scale=np.max(np.abs(E)))
    rec.close(S @ M, red, 'transformation produces the reduced matrix', tol=1e-9, scale=1 + np.max(np.abs(S)) * np.max(np.abs(M)))
    rec.sig('rref float', m, n, r, tuple(piv), kind, noisy)
    if r < m:
        rec.event('rank deficient')
    rec.event('transformation')
    rec.event('row reduction')


def sparsify(rng, rec):
    from qsymm.linalg import sparse_basis
    M, F = integer_matrix(rng)
    reals = bool(rng.random() < .4)
    nd = int(gen.choice(rng, [3, 3, 2, 4, 6]))
    kw = {}
    if nd != 3 or rng.random() < .3:
        kw['num_digits'] = nd
    if reals:
        kw['reals'] = True
        F = [[(z[0], Fraction(0)) for z in r] + [(z[1], Fraction(0)) for z in r] for r in F]
        rec.event('real and imaginary')
    elif not np.iscomplex(M).any() and rng.random() < .5:
        M = M.real
    if not np.any(M):
        rec.skip('zero matrix')
    want, piv, smallest = exact_rref(F, 0)
    if smallest < 3 * 10.**-nd:
        rec.skip('pivots are not clear cut')
    if reals:
        h = want.shape[1] // 2
        want = want[:, :h] + 1j * want[:, h:]
    want = want[:len(piv)]
    rec.note(M=M, kw=kw)
    d0 = ev.digest(M)
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter('always')
        got = sparse_basis(M, **kw)
    rec.check(ev.digest(M) == d0, 'input unchanged')
    if reals:
        rec.check(got.shape == want.shape, 'number of basis vectors', got=got.shape, want=want.shape)
    rec.close(got, want, 'sparse basis', tol=.75 * 10.**-nd, scale=1)
    rec.close(got, np.round(got, nd), 'rounded', tol=1e-12)
    if len(piv) < len(M):
        rec.event('dropped')
        rec.check(any('linearly dependent' in str(x.message) for x in w), 'warns about removed vectors')
    else:
        rec.check(not w, 'no warning', got=[str(x.message) for x in w])
    rec.event('sparsified')
    rec.sig('sparse_basis', M.shape, len(piv), reals, nd)


def bases(rng, rec):
    from qsymm.linalg import matrix_basis
    dim = int(rng.integers(1, 8))
    flags = dict(traceless=bool(rng.integers(2)), antihermitian=bool(rng.integers(2)), real=bool(rng.integers(2)), sparse=bool(rng.integers(2)))
    kw = {k: v for k, v in flags.items() if v or rng.random() < .5}
    rec.note(dim=dim, kw=kw)
    B = list(matrix_basis(dim, **kw))
    if flags['sparse']:
        rec.check(all(sp.issparse(b) and b.format == 'csr' for b in B), 'sparse elements')
    else:
        rec.check(all(isinstance(b, np.ndarray) for b in B), 'dense elements')
    D = [ev.dense(b) for b in B]
    herm = dim * (dim + 1) // 2 if flags['real'] else dim**2
    if flags['antihermitian'] and flags['real']:
        want = dim * (dim - 1) // 2
    else:
        want = herm - flags['traceless']
    rec.check(len(B) == want, 'number of basis matrices', got=len(B), want=want)
    for b in D:
        rec.check(b.shape == (dim, dim), 'shape')
        rec.close(b.conj().T, -b if flags['antihermitian'] else b, 'hermiticity', tol=1e-14)
        if flags['traceless']:
            rec.close(np.trace(b), 0, 'trace', tol=1e-14)
        if flags['real']:
            rec.check(np.max(np.abs(b.imag)) == 0, 'real')
    if D:
        V = np.array([np.concatenate((b.real.ravel(), b.imag.ravel())) for b in D])
        rec.check(np.linalg.matrix_rank(V) == len(V), 'independent over the reals')
        if not flags['real']:
            W = np.array([b.ravel() for b in D])
            rec.check(np.linalg.matrix_rank(W) == len(W), 'independent over the complex numbers')
    # changing an element does not affect others
    if D:
        x = B[0]
        before = [ev.digest(b) for b in B[1:]]
        if flags['sparse']:
            x.data[:] = 7
        else:
            x[:] = 7
        rec.check(before == [ev.digest(b) for b in B[1:]], 'elements are independent objects')
    rec.event('matrix basis')
    rec.sig('basis', dim, tuple(sorted(flags.items())))


def comparison(rng, rec):
    from qsymm.linalg import allclose
    m, n = (int(x) for x in rng.integers(1, 5, 2))
    if rng.random() < .1:
        m = 0
    kind = gen.choice(rng, ['real', 'complex', 'integer'])
    A = scalar(rng, (m, n), kind) * 10.**float(rng.integers(-9, 7))
    if rng.random() < .3 and m:
        # large range inside one array
        A = A * 10.**rng.uniform(-8, 0, (m, n))
    if rng.random() < .1:
        A = np.zeros((m, n))
    rtol, atol, kw = 1e-5, 1e-8, {}
    if rng.random() < .4:
        rtol = kw['rtol'] = float(gen.choice(rng, [1e-5, 1e-3, 1e-8, 0, .1, .5, .9]))
    if rng.random() < .4:
        atol = kw['atol'] = float(gen.choice(rng, [1e-8, 1e-3, 1e-12, 0]))
    top = np.max(np.abs(A), initial=0)
    thr = atol + rtol * top
    f = float(gen.choice(rng, [0, .2, .5, .9, 1.1, 2, 5, 1000]))
    B = np.array(A, complex if kind == 'complex' else float)
    if rtol >= .1 and rng.random() < .7:
        # the deviation is small compared to the larger array, but not to the smaller one
        B = B * float((1 - f * rtol) ** gen.choice(rng, [-1, 1]) if f * rtol < 1 else 1 - .5 * rtol)
        rec.event('coarse tolerance')
    elif m:
        i, j = rng.integers(m), rng.integers(n)
        ph = np.exp(1j * rng.uniform(0, 6)) if kind == 'complex' else gen.choice(rng, [1, -1])
        B[i, j] += f * thr * ph
        if rng.random() < .5:
            B = B + .1 * min(f, 1) * thr * rng.uniform(-1, 1, B.shape)
    want = None
    dev = np.max(np.abs(A - B), initial=0)
    lim = atol + rtol * max(top, np.max(np.abs(B), initial=0))
    if abs(dev - lim) < 1e-3 * lim:
        rec.skip('deviation equals the tolerance')
    want = bool(dev <= lim)

    def form(X, t):
        if t == 'csr':
            return gen.choice(rng, TYPES)(X)
        if t == 'list':
            return X.tolist()
        if t == 'operator':
            return sla.aslinearoperator(np.asarray(X))
        return X
    kinds = ['array', 'csr', 'operator', 'list']
    ta, tb = gen.choice(rng, kinds), gen.choice(rng, kinds)
    if m == 0 and 'csr' in (ta, tb):
        ta = tb = 'array'
    if m == 0:
        if 'operator' in (ta, tb) or 'list' in (ta, tb):
            ta = tb = 'array'
        other = np.zeros((m, n + int(rng.integers(0, 2))))
        rec.check(allclose(A, other) == (A.shape == other.shape), 'comparison of empty arrays')
        rec.sig('empty', n)
        return
    if 'csr' in (ta, tb) and m * n == 0:
        return
    a, b = form(A, ta), form(B, tb)
    rec.note(A=A, B=B, kw=kw, types=(ta, tb), want=want)
    d0 = ev.digest((a, b)) if 'operator' not in (ta, tb) else None
    got, back = allclose(a, b, **kw), allclose(b, a, **kw)
    rec.check(bool(got) == want, 'comparison', got=got, want=want)
    rec.check(bool(back) == want, 'comparison in reverse order', got=back, want=want)
    if d0:
        rec.check(ev.digest((a, b)) == d0, 'input unchanged')
    if want:
        rec.check(bool(allclose(a, a, **kw)), 'equal to itself')
    rec.event('close' if want else 'not close')
    if 'operator' in (ta, tb):
        rec.event('operator arguments')
    if 'csr' in (ta, tb):
        rec.event('sparse arguments')
    # numbers
    x, y = A[0, 0], B[0, 0]
    lim = atol + rtol * max(abs(x), abs(y))
    if abs(abs(x - y) - lim) > 1e-3 * lim:
        w = bool(abs(x - y) <= lim)
        rec.check(bool(allclose(complex(x), complex(y), **kw)) == w and bool(allclose(np.array(x), np.array(y), **kw)) == w, 'comparison of numbers')
    rec.sig('allclose', A.shape, kind, ta, tb, f, rtol, atol, want)


def proportional(rng, rec):
    from qsymm.linalg import prop_to_id
    n = int(rng.integers(1, 6))
    c = complex(rng.normal(), rng.normal()) * 10.**float(rng.integers(-2, 5))
    if rng.random() < .4:
        c = float(gen.choice(rng, [1, -1, 2, .5]))
    A = c * np.eye(n)
    what = gen.choice(rng, ['yes', 'noise', 'zero', 'off', 'diagonal', 'zero corner', 'generic'])
    want = (True, c)
    if what == 'noise':
        A = A * (1 + 1e-9 * rng.normal(size=(n, n))) + 1e-10 * abs(c) * rng.normal(size=(n, n))
    elif what == 'zero':
        A = A * 0
        want = (True, 0)
    elif n > 1 and what != 'yes':
        want = (False, 0)
        i, j = rng.permutation(n)[:2]
        if what == 'off':
            A = A.astype(complex)
            A[i, j] += abs(c) * gen.choice(rng, [1, 1e-2, 1j, 10])
        elif what == 'diagonal':
            A = A.astype(complex)
            A[i, i] *= gen.choice(rng, [-1, 1.01, 1j, 2])
        elif what == 'zero corner':
            A = np.array(A)
            A[0, 0] = 0
        else:
            A = scalar(rng, (n, n), 'complex')
            A[0, -1] += 3
    rec.note(A=A, want=want)
    r = prop_to_id(A)
    rec.check(bool(r[0]) == want[0], 'proportional to the identity', got=r, want=want)
    rec.close(r[1], want[1], 'factor', tol=1e-8)
    rec.event('proportional' if want[0] else 'not proportional')
    rec.sig('prop', n, what)


def vectors(rng, rec):
    """Vector representation of families is real linear and faithful."""
    import qsymm
    from qsymm.linalg import family_to_vectors
    n = int(rng.integers(1, 4))
    pool = [gen.model_key(rng, ['k_x', 'k_y'], kind='poly') if False else None]
    import sympy
    x, y, a = sympy.symbols('k_x k_y a', commutative=False)[0:2] + (sympy.Symbol('a'),)
    keys = [sympy.Integer(1), x, y, x * y, a * x, y**2]
    fam = []
    for _ in range(int(rng.integers(1, 5))):
        ks = [keys[i] for i in rng.permutation(6)[:rng.integers(0, 4)]]
        fam.append(qsymm.Model({k: scalar(rng, (n, n), 'complex') for k in ks}, momenta=['k_x', 'k_y'], shape=(n, n), format=np.ndarray))
    u = rng.normal(size=len(fam))
    comb = sum((float(c) * f for c, f in zip(u[1:], fam[1:])), float(u[0]) * fam[0])
    allk = set().union(*[set(f.keys()) for f in fam])
    order = list(allk)
    rng.shuffle(order)
    extra = rng.random() < .5
    ak = order + ([sympy.Symbol('zz')] if extra else [])
    rec.note(n=n, keys=ak)
    V = family_to_vectors(fam, all_keys=ak)
    c = family_to_vectors([comb], all_keys=ak)
    rec.check(V.shape[0] == len(fam), 'one row per member', got=V.shape)
    if ak:
        rec.check(not np.iscomplexobj(V) or np.max(np.abs(np.imag(V))) == 0, 'real vectors')
        rec.close(u @ V, c[0], 'linear', tol=1e-9)
    W = family_to_vectors(fam)
    G = np.array([[sum(np.sum((f[k].conj() * g[k]).real) for k in allk) for g in fam] for f in fam])
    if W.size:
        rec.close(W @ W.T, G, 'scalar products', tol=1e-9)
        rec.close(V @ V.T, G, 'scalar products with given order', tol=1e-9)
    rec.event('family vectors')
    rec.sig('vectors', n, len(fam), len(allk), extra)


def online(rng, rec):
    """The same contracts on every call made by the library in realistic sessions."""
    with mon.Monitors(rec, int(rng.integers(1 << 30))).linalg():
        pipelines.run(rng, rec)
    rec.event('online session')


FAMILIES = {
    'online': (online, 40, 500),
    'nullspace': (null_space, 10000, 100000),
    'equation': (equation, 8000, 80000),
    'simultaneous': (simultaneous, 6000, 60000),
    'rejected': (not_diagonalizable, 20, 300),
    'rref': (reduction, 2500, 60000),
    'rref-float': (generic_reduction, 1500, 40000),
    'sparse-basis': (sparsify, 1500, 40000),
    'matrix-basis': (bases, 600, 8000),
    'allclose': (comparison, 4000, 80000),
    'proportional': (proportional, 800, 10000),
    'vectors': (vectors, 400, 8000),
}
