"""P25: random matrices belong to their symmetry class."""
import itertools as it

import numpy as np

from .. import ev, gen

RULE = ('states are (ensemble, class, size, variance or charge, kind of random generator); symmetries are written down from the '
        'documentation, the distribution is judged by accumulated moments of the independent degrees of freedom')
CLASSES = ['A', 'AI', 'AII', 'AIII', 'BDI', 'CII', 'D', 'DIII', 'C', 'CI']
REQUIRED_EVENTS = tuple('gaussian ' + s for s in CLASSES) + tuple('circular ' + s for s in CLASSES) + (
    'variance', 'charge', 'random charge', 'impossible charge rejected', 'size rejected', 'class rejected', 'generator rejected', 'seed',
    'generator object', 'global generator', 'numpy integer seed', 'smallest size', 'large', 'squares', 'uniform measure', 'own generator object')
ASSUMPTIONS = ['distributions are compared by moments at the 6 sigma level',
               'v is the standard deviation of the off-diagonal real degrees of freedom in the classes without degeneracy, as implemented']

sx, sy, sz, s0 = np.array([[0, 1], [1, 0]]), np.array([[0, -1j], [1j, 0]]), np.diag([1, -1]), np.eye(2)
# documented: (sign, unitary on the inner degrees of freedom) with H = sign * U H^* U^+
# indices are grouped by orbital, then sigma, then tau
T = {'AI': np.eye(1), 'BDI': sz, 'CI': sx, 'AII': sy, 'CII': np.kron(sy, s0), 'DIII': sy}
P = {'C': sy, 'CI': sy, 'CII': np.kron(sy, sz), 'D': np.eye(1), 'BDI': np.eye(1), 'DIII': sx}
TSQ = {'AI': 1, 'BDI': 1, 'CI': 1, 'AII': -1, 'CII': -1, 'DIII': -1}
PSQ = {'C': -1, 'CI': -1, 'CII': -1, 'D': 1, 'BDI': 1, 'DIII': 1}
CHIRAL = ('AIII', 'BDI', 'CII', 'DIII', 'CI')


def on(U, n):
    return np.kron(np.eye(n // len(U)), U)


def gaussian_size(sym):
    return 4 if sym == 'CII' else 1 if sym in ('A', 'AI', 'D') else 2


def circular_size(sym):
    return 2 if sym in ('C', 'CI', 'CII', 'AII', 'DIII') else 1


class Own:
    """Object that offers the interface of RandomState."""

    def __init__(self, seed):
        r = np.random.RandomState(seed)
        self.random_sample, self.randn, self.randint, self.choice = r.random_sample, r.randn, r.randint, r.choice


def rng_kind(rng, rec):
    """(maker of equivalent generators, description)"""
    seed = int(rng.integers(1 << 31))
    k = gen.choice(rng, ['int', 'int', 'object', 'global', 'npint', 'own'])
    if k == 'int':
        rec.event('seed')
        return (lambda: seed), k
    if k == 'npint':
        rec.event('numpy integer seed')
        return (lambda: np.int64(seed)), k
    if k == 'own':
        rec.event('own generator object')
        return (lambda: Own(seed)), k
    if k == 'object':
        rec.event('generator object')
        return (lambda: np.random.RandomState(seed)), k
    rec.event('global generator')

    def make():
        np.random.seed(seed)
        return None
    return make, k


def check_gaussian(rec, H, sym, n, v):
    s = v * np.sqrt(n)
    rec.check(isinstance(H, np.ndarray) and H.shape == (n, n), 'shape', got=getattr(H, 'shape', None))
    rec.close(H / s, H.conj().T / s, 'Hermitian', tol=1e-13)
    if sym in T:
        U = on(T[sym], n)
        rec.close(H / s, U @ H.conj() @ U.conj().T / s, 'time reversal symmetry', tol=1e-13)
    if sym in P:
        U = on(P[sym], n)
        rec.close(H / s, -U @ H.conj() @ U.conj().T / s, 'particle-hole symmetry', tol=1e-13)
    if sym in CHIRAL:
        U = on(sz, n)
        rec.close(H / s, -U @ H @ U / s, 'chiral symmetry', tol=1e-13)


def gauss(rng, rec):
    from qsymm.kwant_rmt import gaussian
    sym = gen.choice(rng, CLASSES)
    q = gaussian_size(sym)
    n = q * int(rng.integers(1, 7))
    if rng.random() < .04:
        n = q * int(rng.integers(20, 40))
        rec.event('large')
    if n == q:
        rec.event('smallest size')
    v = float(gen.choice(rng, [1., 1., .3, 5., 1e-3, 100]))
    make, kind = rng_kind(rng, rec)
    rec.note(sym=sym, n=n, v=v, kind=kind)
    kw = dict(rng=make())
    if v != 1 or rng.random() < .5:
        kw['v'] = v
    args = (n,) if sym == 'A' and rng.random() < .5 else (n, sym)
    H = gaussian(*args, **kw)
    check_gaussian(rec, H, sym, n, v)
    keep = H.copy()
    kw['rng'] = make()
    H2 = gaussian(*args, **kw)
    rec.check(np.array_equal(H, H2), 'same seed gives the same matrix')
    H2 += 1
    rec.check(np.array_equal(H, keep), 'samples do not share memory')
    zero = n <= 4 and len(symmetric_basis(sym, n)) == 0
    if kind in ('object', 'own', 'global'):
        g = make()
        A, B = gaussian(n, sym, v, g), gaussian(n, sym, v, g)
        rec.check(np.array_equal(A, H), 'positional arguments')
        rec.check(zero or not np.array_equal(A, B), 'next draw differs')
    else:
        B = gaussian(n, sym, v, int(rng.integers(1 << 31)))
        rec.check(zero or not np.array_equal(H, B), 'another seed gives another matrix')
    # proportional to v
    H1 = gaussian(n, sym, 1., make())
    rec.close(H1 * v, H, 'scales with v', tol=1e-12, scale=v)
    rec.event('gaussian ' + sym)
    rec.sig('gaussian', sym, n, v, kind)


_basis = {}


def symmetric_basis(sym, n):
    """Hilbert-Schmidt orthonormal real basis of the symmetric Hermitian matrices."""
    if (sym, n) not in _basis:
        E = []
        for i in range(n):
            for j in range(i + 1):
                m = np.zeros((n, n), complex)
                if i == j:
                    m[i, i] = 1
                    E.append(m)
                else:
                    m[i, j] = m[j, i] = 1 / np.sqrt(2)
                    E.append(m)
                    m = np.zeros((n, n), complex)
                    m[i, j], m[j, i] = 1j / np.sqrt(2), -1j / np.sqrt(2)
                    E.append(m)
        E = np.array(E)

        def project(M):
            if sym in T:
                U = on(T[sym], n)
                M = (M + U @ M.conj() @ U.conj().T) / 2
            if sym in P:
                U = on(P[sym], n)
                M = (M - U @ M.conj() @ U.conj().T) / 2
            if sym in CHIRAL:
                U = on(sz, n)
                M = (M - U @ M @ U) / 2
            return M
        Q = np.array([[np.sum(a.conj() * project(b)).real for a in E] for b in E])
        w, vec = np.linalg.eigh((Q + Q.T) / 2)
        assert np.all((np.abs(w) < 1e-9) | (np.abs(w - 1) < 1e-9))
        _basis[sym, n] = np.tensordot(vec[:, w > .5].T, E, axes=1)
    return _basis[sym, n]


def variance(rng, rec):
    from qsymm.kwant_rmt import gaussian
    sym = gen.choice(rng, CLASSES)
    q = gaussian_size(sym)
    n = q * int(rng.integers(1, {1: 6, 2: 4, 4: 3}[q]))
    v = float(gen.choice(rng, [1., .2, 3.]))
    B = symmetric_basis(sym, n)
    N = 600
    g = np.random.RandomState(int(rng.integers(1 << 31)))
    rec.note(sym=sym, n=n, v=v)
    X = []
    for _ in range(N):
        H = gaussian(n, sym, v, g)
        x = np.tensordot(B.conj(), H, axes=((1, 2), (0, 1)))
        X.append(x.real)
        rec.events['oracle verdicts'] += 1
    X = np.array(X).reshape(N, len(B))
    D = len(B)
    if D == 0:
        rec.close(H, np.zeros((n, n)), 'no degree of freedom', tol=1e-13)
        rec.sig('variance', sym, n, v)
        rec.event('variance')
        return
    k = 2 if sym in ('AII', 'DIII', 'C', 'CI', 'CII') else 1
    Z = X / (v * np.sqrt(2 * k))
    t = lambda name, val, lim: rec.check(abs(val) < lim, name, sigma=val, sym=sym, n=n)
    t('mean of all degrees of freedom', np.sum(Z) / np.sqrt(N * D), 6)
    t('variance of all degrees of freedom', (np.sum(Z**2) - N * D) / np.sqrt(2 * N * D), 6)
    t('mean of a degree of freedom', np.max(np.abs(np.sum(Z, axis=0))) / np.sqrt(N), 6.5)
    t('variance of a degree of freedom', np.max(np.abs(np.sum(Z**2, axis=0) - N)) / np.sqrt(2 * N), 7.5)
    G = Z.T @ Z / np.sqrt(N)
    np.fill_diagonal(G, 0)
    t('correlation between degrees of freedom', np.max(np.abs(G)), 7)
    t('fourth moment', (np.sum(Z**4) - 3 * N * D) / np.sqrt(96 * N * D), 7)
    # successive draws are independent
    t('correlation of successive draws', np.max(np.abs(np.sum(Z[1:] * Z[:-1], axis=0))) / np.sqrt(N), 6.5)
    rec.event('variance')
    rec.sig('variance', sym, n, v)


def pfaffian(A):
    n = len(A)
    if n == 0:
        return 1.
    if n % 2:
        return 0.
    A = np.array(A, float)
    res = 1.
    for k in range(0, n - 1, 2):
        kp = k + 1 + np.argmax(np.abs(A[k + 1:, k]))
        if kp != k + 1:
            A[[k + 1, kp]] = A[[kp, k + 1]]
            A[:, [k + 1, kp]] = A[:, [kp, k + 1]]
            res *= -1
        if A[k, k + 1] == 0:
            return 0.
        res *= A[k, k + 1]
        tau = A[k, k + 2:] / A[k, k + 1]
        if k + 2 < n:
            A[k + 2:, k + 2:] += np.outer(tau, A[k + 2:, k + 1]) - np.outer(A[k + 2:, k + 1], tau)
    return res


def check_circular(rec, r, sym, n):
    """Documented constraints; returns the charge."""
    rec.check(isinstance(r, np.ndarray) and r.shape == (n, n), 'shape', got=getattr(r, 'shape', None))
    rec.close(r @ r.conj().T, np.eye(n), 'unitary', tol=1e-10)
    Y = on(sy, n) if n % 2 == 0 else None
    tol = 1e-10
    if sym in CHIRAL and sym not in ('DIII', 'CI') or sym in ('CI', 'DIII'):
        rec.close(r, r.conj().T, 'chiral symmetry', tol=tol)
    if sym in ('AI', 'BDI'):
        rec.close(r, r.T, 'time reversal symmetry', tol=tol)
    if sym == 'CI':
        rec.close(r, -Y @ r.T @ Y, 'time reversal symmetry', tol=tol)
    if sym in ('AII', 'DIII'):
        rec.close(r, -r.T, 'time reversal symmetry', tol=tol)
    if sym == 'CII':
        rec.close(r, Y @ r.T @ Y, 'time reversal symmetry', tol=tol)
    if sym == 'CI':
        rec.close(r, -Y @ r.conj() @ Y, 'particle-hole symmetry', tol=tol)
    if sym in ('C', 'CII'):
        rec.close(r, Y @ r.conj() @ Y, 'particle-hole symmetry', tol=tol)
    if sym in ('D', 'BDI'):
        rec.close(r, r.conj(), 'particle-hole symmetry', tol=tol)
    if sym == 'DIII':
        rec.close(-r, r.conj(), 'particle-hole symmetry', tol=tol)
    if sym == 'D':
        return int(np.round(np.linalg.det(r).real))
    if sym == 'DIII':
        return int(np.round(pfaffian((1j * r).real)))
    if sym in ('AIII', 'BDI'):
        return int(np.sum(np.linalg.eigvalsh(r) < 0))
    if sym == 'CII':
        return int(np.sum(np.linalg.eigvalsh(r) < 0)) // 2
    return None


def circle(rng, rec):
    from qsymm.kwant_rmt import circular
    sym = gen.choice(rng, CLASSES)
    q = circular_size(sym)
    n = q * int(rng.integers(1, 7))
    if rng.random() < .04:
        n = q * int(rng.integers(15, 30))
        rec.event('large')
    if n == q:
        rec.event('smallest size')
    make, kind = rng_kind(rng, rec)
    kw = {}
    charge = None
    if rng.random() < .6:
        if sym in ('D', 'DIII'):
            charge = int(gen.choice(rng, [1, -1]))
        elif sym in ('AIII', 'BDI'):
            charge = int(gen.choice(rng, [0, n, rng.integers(0, n + 1)]))
        elif sym == 'CII':
            charge = int(gen.choice(rng, [0, n // 2, rng.integers(0, n // 2 + 1)]))
        if charge is not None:
            kw['charge'] = charge
            if rng.random() < .2:
                kw['charge'] = np.int64(charge)
    elif rng.random() < .3:
        kw['charge'] = None
    rec.note(sym=sym, n=n, charge=charge, kind=kind)
    args = (n,) if sym == 'A' and rng.random() < .5 else (n, sym)
    r = circular(*args, rng=make(), **kw)
    got = check_circular(rec, r, sym, n)
    if charge is not None:
        rec.check(got == charge, 'topological charge', got=got, want=charge)
        rec.event('charge')
    r2 = circular(*args, rng=make(), **kw)
    rec.check(np.array_equal(r, r2), 'same seed gives the same matrix')
    discrete = n <= 2
    if kind in ('object', 'own', 'global'):
        g = make()
        a, b = circular(*args, rng=g, **kw), circular(*args, rng=g, **kw)
        rec.check(np.array_equal(a, r), 'same generator state gives the same matrix')
    else:
        b = circular(*args, rng=int(rng.integers(1 << 31)), **kw)
    if not discrete:
        same = np.allclose(r, b, rtol=1e-6, atol=1e-9)
        fixed = sym in ('AIII', 'BDI', 'CII') and (got in (0, n, n // 2))      # may be plus or minus identity
        rec.check(not same or fixed, 'draws differ')
    rec.event('circular ' + sym)
    rec.sig('circular', sym, n, charge, kind, got)


def measure(rng, rec):
    """Charges are drawn from a binomial distribution, the measure is invariant."""
    from qsymm.kwant_rmt import circular
    sym = gen.choice(rng, CLASSES)
    q = circular_size(sym)
    n = q * int(rng.integers(1, 4))
    N = 500
    g = np.random.RandomState(int(rng.integers(1 << 31)))
    rec.note(sym=sym, n=n)
    ch = None
    if sym in ('D', 'DIII') and rng.random() < .4:
        ch = int(gen.choice(rng, [1, -1]))
    S = []
    Q = []
    for _ in range(N):
        r = circular(n, sym, ch, g)
        S.append(r)
        if sym in ('D', 'DIII', 'AIII', 'BDI', 'CII'):
            Q.append(check_circular(rec, r, sym, n))
        rec.events['oracle verdicts'] += 1
    S = np.array(S)
    t = lambda name, val, lim: rec.check(np.abs(val) < lim, name, sigma=val, sym=sym, n=n)
    if Q and ch is None:
        Q = np.array(Q)
        if sym in ('D', 'DIII'):
            t('mean charge', np.sum(Q) / np.sqrt(N), 6)
            rec.check(set(np.unique(Q)) == {1, -1}, 'values of the charge', got=np.unique(Q))
        else:
            m = n if sym != 'CII' else n // 2
            t('mean charge', (np.sum(Q) - N * m / 2) / np.sqrt(N * m / 4), 6)
            z = (Q - m / 2)**2
            var4 = (m / 4)**2 * (2 - 2 / m) if m > 1 else 0
            if var4:
                t('variance of the charge', (np.sum(z) - N * m / 4) / np.sqrt(N * var4), 6.5)
            rec.check(np.min(Q) >= 0 and np.max(Q) <= m, 'range of the charge')
            for i in range(n):
                t('no preferred channel', np.sum(S[:, i, i].real) / np.sqrt(np.sum(S[:, i, i].real**2) + 1e-12), 6.5)
        rec.event('random charge')
    # second moments of entries
    if sym in ('A', 'D', 'C'):
        want = np.full((n, n), 1 / n)
    elif sym == 'AI':
        want = (1 + np.eye(n)) / (n + 1)
    elif sym == 'AII':
        want = (1 - np.eye(n)) / (n - 1)
    elif sym == 'DIII':
        want = (1 - np.eye(n)) / (n - 1)
    else:
        want = None
    if want is not None:
        M = np.mean(np.abs(S)**2, axis=0)
        sd = np.std(np.abs(S)**2, axis=0) / np.sqrt(N)
        rec.check(np.max(np.abs(M - want) - 7 * sd) < 1e-9, 'second moments of the entries', got=M, want=want)
        special = n <= 2 and sym in ('D', 'DIII') or n == 1 or sym in ('DIII',)
        if not special and not (sym == 'D' and n <= 2):
            mean = np.mean(S, axis=0)
            # invariance under multiplication by group elements: no preferred phase
            rec.check(np.max(np.abs(mean)) < 7 / np.sqrt(N), 'mean of the entries', got=np.max(np.abs(mean)) * np.sqrt(N))
        rec.event('uniform measure')
    if sym in ('A', 'C') or sym == 'D' and n > 2:
        W = circular(n, sym, None, g)
        if sym != 'D' or True:
            tr = np.einsum('ij,kji->k', W, S)
            m2 = np.abs(tr)**2
            rec.check(abs(np.mean(m2) - 1) < 1e-9 + 7 * np.std(m2) / np.sqrt(N), 'second moment of the trace', got=np.mean(m2))
    rec.sig('measure', sym, n, ch)


def squares(rng, rec):
    from qsymm import kwant_rmt as r
    for s in CLASSES:
        rec.check(r.t(s) == TSQ.get(s, 0), 'square of time reversal', sym=s, got=r.t(s))
        rec.check(r.p(s) == PSQ.get(s, 0), 'square of particle-hole', sym=s, got=r.p(s))
        rec.check(bool(r.c(s)) == (s in CHIRAL), 'chiral symmetry', sym=s)
        for tab, mine, sq in ((r.h_t_matrix, T, TSQ), (r.h_p_matrix, P, PSQ)):
            rec.check((s in tab) == (s in mine), 'advertised operators', sym=s)
            if s in mine:
                U = np.array(tab[s], complex)
                rec.check(U.shape == mine[s].shape, 'size of the operator', sym=s)
                rec.close(U @ U.conj().T, np.eye(len(U)), 'unitary operator')
                rec.close(U @ U.conj(), sq[s] * np.eye(len(U)), 'square of the operator', sym=s)
                k = np.trace(U @ mine[s].conj().T) / len(U)
                rec.check(abs(abs(k) - 1) < 1e-12, 'documented operator', sym=s)
    rec.event('squares')
    for f in (r.t, r.p, r.c):
        rec.raises(ValueError, lambda: f(gen.choice(rng, ['B', 'a', '', 'AIV'])), 'unknown class')
    rec.sig('squares')


def rejected(rng, rec):
    from qsymm.kwant_rmt import gaussian, circular
    k = int(rng.integers(0, 5))
    for s in CLASSES:
        q = gaussian_size(s)
        bad = [2 * k + 1] if q == 2 else [2 * k + 1, 4 * k + 2] if q == 4 else []
        for n in bad:
            rec.raises(ValueError, lambda: gaussian(n, s, rng=0), 'size %d of class %s' % (n, s))
        if circular_size(s) == 2:
            rec.raises(ValueError, lambda: circular(2 * k + 1, s, rng=0), 'odd size of class %s' % s)
    rec.event('size rejected')
    n = 2 * k + 2
    for s, bad in (('D', (0, 2, -2, n)), ('DIII', (0, 2)), ('AIII', (-1, n + 1)), ('BDI', (-1, n + 1)), ('CII', (-1, n // 2 + 1, n + 2))):
        for c in bad:
            if s in ('D', 'DIII') and c in (1, -1):
                continue
            rec.raises(ValueError, lambda: circular(n, s, c, 0), 'charge %s of class %s' % (c, s))
    rec.event('impossible charge rejected')
    for s in ('B', 'a', 'aiii', 'AIV'):
        rec.raises(ValueError, lambda: gaussian(4, s), 'unknown class')
        rec.raises(ValueError, lambda: circular(4, s), 'unknown class')
    rec.event('class rejected')
    for bad in ('seed', 1.5, [1, 2], np.random.default_rng(0)):
        rec.raises(ValueError, lambda: gaussian(4, 'A', rng=bad), 'random generator')
        rec.raises(ValueError, lambda: circular(4, 'A', rng=bad), 'random generator')
    rec.event('generator rejected')
    rec.sig('rejected', k)


FAMILIES = {
    'gaussian': (gauss, 6000, 150000),
    'variance': (variance, 400, 8000),
    'circular': (circle, 6000, 150000),
    'measure': (measure, 400, 8000),
    'squares': (squares, 3, 5),
    'rejected': (rejected, 10, 50),
}
