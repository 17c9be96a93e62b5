"""P14: all conserved quantities and a symmetry adapted basis are found."""
import itertools as it

import numpy as np
import scipy.sparse as sp
import sympy

from .. import ev, gen, symm

RULE = ('states are (workload, size, number of members, sector sizes, multiplicities, dimension of the commutant, storage, '
        'prettified); the commutant is computed independently and compared in dimension and span')
REQUIRED_EVENTS = ('multiplet', 'one dimensional block', 'several sectors', 'single matrix', 'sparse', 'prettified',
                   'commutant trivial', 'zero matrix', 'adapted basis')
ASSUMPTIONS = ['families are closed under Hermitian conjugation',
               'families whose singular values are neither clearly zero nor clearly non-zero are inconclusive',
               'prettified results are compared up to the requested number of digits']


def real_rank(Ls, tol=1e-6):
    if not len(Ls):
        return 0
    A = np.array([np.concatenate((L.real.ravel(), L.imag.ravel())) for L in Ls])
    A = A / np.linalg.norm(A, axis=1)[:, None]
    s = np.linalg.svd(A, compute_uv=False)
    return int(np.sum(s > tol * s[0])) if s[0] > 0 else 0


def judge_quantities(rec, mats, cons, D, what, tol=1e-7):
    n = mats[0].shape[0]
    scale = max(np.max(np.abs(m)) for m in mats)
    Ls = []
    for g in cons:
        rec.check(g.R is None or np.max(np.abs(np.array(g.R).astype(complex)), initial=0) < 1e-12,
                  what + ': conserved quantities have no spatial part', g=repr(g))
        L = np.asarray(g.U, dtype=complex)
        rec.check(L.shape == (n, n), what + ': shape', shape=L.shape)
        size = np.max(np.abs(L))
        rec.check(size > 1e-6, what + ': conserved quantity is not zero')
        rec.close(L, L.conj().T, what + ': Hermitian', tol=tol * 10, scale=max(1, size))
        rec.close(np.trace(L), 0, what + ': traceless', tol=tol * 10, scale=max(1, size))
        for m in mats:
            rec.close(L @ m, m @ L, what + ': commutes with every member', tol=tol * 10, scale=max(1e-3, size * scale * n))
        Ls.append(L)
    rec.check(len(Ls) == D - 1, what + ': number of conserved quantities', got=len(Ls), want=D - 1)
    rec.check(real_rank(Ls) == len(Ls), what + ': linearly independent', rank=real_rank(Ls), n=len(Ls))
    return Ls


def judge_basis(rec, mats, Ps, D):
    n = mats[0].shape[0]
    scale = max(1e-3, max(np.max(np.abs(m)) for m in mats))
    Ps = [np.asarray(P) for P in Ps]
    for P in Ps:
        rec.check(P.ndim == 3 and P.shape[1] == n, 'projector has shape (multiplicity, N, block size)', shape=P.shape)
    rec.check(sum(P.shape[0] * P.shape[2] for P in Ps) == n, 'blocks add up to the size', shapes=[P.shape for P in Ps])
    Q = np.hstack([P[a] for P in Ps for a in range(len(P))])
    rec.close(Q.conj().T @ Q, np.eye(n), 'adapted basis is orthonormal and complete', tol=1e-8)
    for i, P in enumerate(Ps):
        for j, O in enumerate(Ps):
            for a in range(len(P)):
                for b in range(len(O)):
                    blk = [P[a].conj().T @ m @ O[b] for m in mats]
                    if i != j or a != b:
                        for x in blk:
                            rec.close(x, np.zeros_like(x), 'members are block diagonal', tol=1e-7, scale=scale)
                    elif a:
                        for x, m in zip(blk, mats):
                            rec.close(x, P[0].conj().T @ m @ P[0], 'blocks of a multiplet are identical', tol=1e-6, scale=scale)
        red = [P[0].conj().T @ m @ P[0] for m in mats]
        rec.check(symm.commutant_dim(red) == 1, 'no further symmetry inside a block', block=i)
        if P.shape[2] == 1:
            rec.event('one dimensional block')
        if P.shape[0] > 1:
            rec.event('multiplet')
    for i, j in it.combinations(range(len(Ps)), 2):
        if Ps[i].shape[2] == Ps[j].shape[2]:
            HL = [Ps[j][0].conj().T @ m @ Ps[j][0] for m in mats]
            HR = [Ps[i][0].conj().T @ m @ Ps[i][0] for m in mats]
            d = max(np.max(np.abs(l - r)) for l, r in zip(HL, HR))
            if d > 1e-4 * scale:
                rec.check(len(symm.intertwiners(HL, HR)) == 0, 'different sectors are inequivalent', i=i, j=j)
            else:
                rec.check(False, 'different sectors are inequivalent', i=i, j=j)
    rec.check(sum(P.shape[0]**2 for P in Ps) == D, 'multiplicities account for the whole commutant',
              shapes=[P.shape for P in Ps], D=D)
    rec.event('adapted basis')
    if len(Ps) > 1:
        rec.event('several sectors')


def smallest(mats):
    one = np.eye(len(mats[0]))
    A = np.vstack([np.kron(one, m.T) - np.kron(m, one) for m in mats])
    s = np.linalg.svd(np.linalg.qr(A, mode='r'), compute_uv=False)
    return min([1.] + list(s[s > 1e-9 * max(s[0], 1e-9)]))


def same_span(rec, A, B, msg, tol):
    if not len(A):
        rec.check(not len(B), msg)
        return
    va = np.array([np.concatenate((L.real.ravel(), L.imag.ravel())) for L in A])
    vb = np.array([np.concatenate((L.real.ravel(), L.imag.ravel())) for L in B])
    q, _ = np.linalg.qr(va.T)
    res = vb.T - q @ (q.T @ vb.T)
    rec.close(res, np.zeros_like(res), msg, tol=tol, scale=max(1, np.max(np.abs(vb))))


def examine(rng, rec, mats, desc, limit=40):
    import qsymm
    from qsymm import symmetry_finder as sf
    mats = [np.asarray(m, complex) for m in mats]
    n = mats[0].shape[0]
    D = symm.commutant_dim(mats)
    if D > limit:
        rec.skip('commutant too large')
    if D == 1:
        rec.event('commutant trivial')
    if len(mats) == 1:
        rec.event('single matrix')
    digest = ev.digest(mats)
    Ps = sf._reduce_hamiltonian(np.array(mats) if rng.random() < .5 else mats)
    judge_basis(rec, mats, Ps, D)
    raw = judge_quantities(rec, mats, sf.conserved_quantities(Ps), D, 'conserved quantities')
    digits = int(rng.choice([6, 8, 10]))
    with np.errstate(all='ignore'):
        nice = sf.conserved_quantities(Ps, prettify=True, num_digits=digits)
    if max([0] + [np.max(np.abs(g.U)) for g in nice]) > 1e3:
        # documented limitation of the row reduction
        rec.event('numerically unstable prettification')
        nice = None
    else:
        nice = judge_quantities(rec, mats, nice, D, 'prettified', tol=10. ** (2 - digits))
        same_span(rec, raw, nice, 'prettify keeps the span', 10. ** (3 - digits))
        rec.event('prettified')
    # the same through the public interface
    ks = [sympy.Symbol('t_%d' % i) for i in range(len(mats))]
    H = qsymm.Model(dict(zip(ks, mats)), momenta=('k_x',))
    sparse = bool(rng.random() < .3)
    if sparse:
        H = H.tocsr()
        rec.event('sparse')
    # the sparse algorithm decides with the squares of the singular values
    kw = {'sparse_linalg': True} if rng.random() < .3 and smallest(mats) > 1e-2 else {}
    if kw:
        rec.event('sparse')
    kw['prettify'] = bool(rng.random() < .4)
    one = qsymm.PointGroupElement(np.eye(1, dtype=int), False, False)
    _, cons = qsymm.symmetries(H, [one], **kw)
    if kw['prettify'] and max([0] + [np.max(np.abs(g.U)) for g in cons]) > 1e3:
        rec.event('numerically unstable prettification')
    else:
        pub = judge_quantities(rec, mats, cons, D, 'symmetries()', tol=1e-6)
        same_span(rec, raw, pub, 'symmetries() finds the same space', 1e-5)
    rec.check(ev.digest(mats) == digest, 'family is not changed')
    rec.sig(desc, n, len(mats), D, sorted(P.shape for P in map(np.asarray, Ps)), sparse, tuple(sorted(kw.items())))


def draw_block(rng, b, m, kind):
    if kind == 'complex':
        return [gen.hermitian(rng, b) for _ in range(m)]
    if kind == 'real':
        return [gen.hermitian(rng, b, 'real') for _ in range(m)]
    if kind == 'int':
        out = []
        for _ in range(m):
            a = rng.integers(-2, 3, (b, b)) + 1j * rng.integers(-1, 2, (b, b))
            out.append(a + a.conj().T)
        return out
    return [np.diag(rng.integers(-2, 3, b)).astype(complex) for _ in range(m)]


def planted(rng, rec):
    """Direct sums of blocks with multiplicities, in a random basis."""
    nmax = 12
    m = int(gen.choice(rng, [1, 1, 2, 3]))
    blocks, mult = [], []
    for _ in range(int(gen.choice(rng, [1, 2, 2, 3, 4]))):
        b, k = int(gen.choice(rng, [1, 1, 2, 2, 3, 4])), int(gen.choice(rng, [1, 1, 1, 2, 2, 3, 4, 5]))
        if sum(x[0].shape[0] * y for x, y in zip(blocks, mult)) + b * k > nmax:
            continue
        u = rng.random()
        if blocks and u < .2:
            h = [x.conj() for x in blocks[-1]]
        elif blocks and u < .3:
            h = [-x for x in blocks[-1]]
        elif blocks and u < .4:
            h = [x + gen.choice(rng, [1e-2, 1e-1]) * y for x, y in zip(blocks[-1], draw_block(rng, len(blocks[-1][0]), m, 'complex'))]
        else:
            h = draw_block(rng, b, m, gen.choice(rng, ['complex', 'complex', 'real', 'int', 'diag']))
        if sum(x[0].shape[0] * y for x, y in zip(blocks, mult)) + h[0].shape[0] * k > nmax:
            continue
        blocks.append(h)
        mult.append(k)
    if not blocks:
        rec.skip('no system of acceptable size')
    n = sum(x[0].shape[0] * y for x, y in zip(blocks, mult))
    import scipy.linalg as la
    W = symm.basis_change(rng, n)
    c = 10. ** rng.uniform(-1, 2)
    mats = [c * W @ la.block_diag(*[np.kron(h[i], np.eye(k)) for h, k in zip(blocks, mult)]) @ W.conj().T for i in range(m)]
    mats = [(x + x.conj().T) / 2 for x in mats]
    if rng.random() < .1:
        mats.append(np.zeros((n, n)))
        rec.event('zero matrix')
    rec.note(mats=mats, mult=mult)
    examine(rng, rec, mats, ('planted', tuple(len(b[0]) for b in blocks), tuple(mult)))


def spin_half(i, n, a):
    s = [np.array([[0, 1], [1, 0]]), np.array([[0, -1j], [1j, 0]]), np.diag([1, -1])][a] / 2
    return np.kron(np.kron(np.eye(2**i), s), np.eye(2**(n - i - 1)))


def structured(rng, rec):
    """Spin clusters, graphs and other families in their natural basis."""
    which = gen.choice(rng, ['heisenberg', 'xxz', 'graph', 'spins', 'kron', 'paulis', 'zero', 'projector', 'nambu'])
    if which in ('heisenberg', 'xxz'):
        n = int(rng.choice([2, 3, 3]))
        bonds = {}
        for i, j in it.combinations(range(n), 2):
            bonds.setdefault(int(rng.integers(2)), []).append((i, j))
        w = (1, 1, 1) if which == 'heisenberg' else (1, 1, .5)
        mats = [sum(w[a] * spin_half(i, n, a) @ spin_half(j, n, a) for i, j in bb for a in range(3)) for bb in bonds.values()]
        if rng.random() < .3:
            mats.append(sum(spin_half(i, n, 2) for i in range(n)))
    elif which == 'graph':
        n = int(rng.choice([3, 4, 5, 6, 8]))
        A = np.zeros((n, n))
        if n == 8 and rng.random() < .5:
            for i in range(8):
                for b in range(3):
                    A[i, i ^ (1 << b)] = 1
        else:
            for i in range(n):
                A[i, (i + 1) % n] = A[(i + 1) % n, i] = 1
        mats = [A]
        if rng.random() < .3:
            mats.append(np.diag([1.] + [0.] * (n - 1)))
    elif which == 'spins':
        from .p10 import spin
        s = spin(gen.choice(rng, [.5, 1, 1.5, 2]))
        k = int(rng.integers(1, 4))
        sel = [s[i] for i in sorted(rng.choice(3, int(rng.integers(1, 4)), replace=False))]
        mats = [np.kron(x, np.eye(k)) if rng.random() < .5 or True else x for x in sel]
        if rng.random() < .3:
            mats = [x @ x for x in mats]
    elif which == 'kron':
        a, b = int(rng.integers(1, 4)), int(rng.integers(1, 4))
        h = gen.hermitian(rng, a)
        mats = [np.kron(h, np.eye(b)), np.kron(np.eye(a), np.diag(rng.integers(-1, 2, b)))]
    elif which == 'paulis':
        from functools import reduce
        p = [np.eye(2), np.array([[0, 1], [1, 0]]), np.array([[0, -1j], [1j, 0]]), np.diag([1, -1])]
        mats = [reduce(np.kron, [p[int(rng.integers(4))] for _ in range(3)]) for _ in range(int(rng.integers(1, 4)))]
    elif which == 'zero':
        n = int(rng.integers(1, 5))
        mats = [np.zeros((n, n)) if rng.random() < .5 else np.eye(n) * rng.normal()]
        rec.event('zero matrix')
    elif which == 'projector':
        n = int(rng.integers(2, 7))
        v = rng.normal(size=(n, 1)) + 1j * rng.normal(size=(n, 1))
        v /= np.linalg.norm(v)
        mats = [v @ v.conj().T]
    else:
        n = int(rng.integers(1, 4))
        a, d = gen.hermitian(rng, n), rng.normal(size=(n, n)) + 1j * rng.normal(size=(n, n))
        d = d - d.T
        mats = [np.block([[a, np.zeros((n, n))], [np.zeros((n, n)), -a.T]]), np.block([[np.zeros((n, n)), d], [d.conj().T, np.zeros((n, n))]])]
        if n == 1:
            mats = mats[:1]
    rec.note(which=which, mats=mats)
    examine(rng, rec, mats, ('structured', which))


def degenerate(rng, rec):
    """Many equal levels, more than forty conserved quantities."""
    m = int(gen.choice(rng, [7, 7, 8]))
    b = int(gen.choice(rng, [1, 1, 0]))
    kind = gen.choice(rng, ['unitary', 'plain', 'real'])
    n = m + b
    U = {'unitary': lambda: gen.unitary(rng, n), 'plain': lambda: np.eye(n)[rng.permutation(n)],
         'real': lambda: np.linalg.qr(rng.normal(size=(n, n)))[0]}[kind]()
    mats = [U @ np.diag([float(rng.integers(-3, 4))] * m + [float(x) for x in rng.integers(5, 9, b)]) @ U.conj().T
            for _ in range(int(rng.integers(1, 3)))]
    mats = [(a + a.conj().T) / 2 for a in mats]
    if max(np.max(np.abs(a)) for a in mats) < .5:
        rec.skip('nothing but zero')
    rec.event('more than forty conserved quantities')
    examine(rng, rec, mats, ('degenerate', m, b, kind), limit=70)


def momentum(rng, rec):
    """Conserved quantities of momentum dependent models."""
    import qsymm
    H, C, desc = symm.system(rng, rec, nmax=9)
    T = symm.Tester(H, rng)
    D = symm.commutant_dim(T.H)
    H2 = H.tocsr() if rng.random() < .3 else H
    pretty = bool(rng.random() < .4)
    rec.note(H=repr(dict(H)), pretty=pretty)
    _, cons = qsymm.symmetries(H2, C[:1], prettify=pretty)
    judge_quantities(rec, T.H, cons, D, 'momentum dependent model', tol=1e-6)
    H3 = qsymm.BlochModel(H) if desc[1] == 'bloch' else H
    _, c3 = qsymm.symmetries(H3, C[:1])
    judge_quantities(rec, T.H, c3, D, 'momentum dependent model', tol=1e-6)
    rec.sig('momentum', desc, D, pretty)


FAMILIES = {
    'planted': (planted, 240, 6000),
    'structured': (structured, 200, 4000),
    'momentum': (momentum, 60, 1500),
    'degenerate': (degenerate, 16, 120),
}
