"""Spans of Hermitian (or pairing) families in a fixed space of functions times
matrices: independent linear algebra on values at sample points."""
import itertools as it

import numpy as np

from . import ev, symm
from .core import Skip


def herm_basis(n):
    out = []
    for i in range(n):
        for j in range(i, n):
            m = np.zeros((n, n), complex)
            m[i, j] = m[j, i] = 1 if i == j else np.sqrt(.5)
            out.append(m)
            if i != j:
                m = np.zeros((n, n), complex)
                m[i, j], m[j, i] = -1j * np.sqrt(.5), 1j * np.sqrt(.5)
                out.append(m)
    return out


def real(A):
    return np.concatenate((A.real, A.imag))


class Monomial:
    def __init__(self, powers):
        self.p = np.array(powers, int)

    def __call__(self, k):
        return complex(np.prod(np.asarray(k) ** self.p))

    def derivative(self, k, v):
        """Directional derivative along v."""
        k = np.asarray(k, float)
        out = 0.
        for i, n in enumerate(self.p):
            if n:
                q = self.p.copy()
                q[i] -= 1
                out += n * np.prod(k**q) * v[i]
        return out


class Wave:
    def __init__(self, vec):
        self.v = np.array(vec, float)

    def __call__(self, k):
        return np.exp(1j * (self.v @ np.asarray(k)))

    def derivative(self, k, v):
        return 1j * (self.v @ np.asarray(v)) * self(k)


class Space:
    """Real linear combinations of `elements`: each a list of (function, matrix)."""

    def __init__(self, elements, momenta, n, rng, extra=3):
        self.elements, self.momenta, self.n = elements, [str(k) for k in momenta], n
        self.shape = (n, n) if np.ndim(n) == 0 else tuple(n)
        funs = []
        for el in elements:
            for f, _ in el:
                if f not in funs:
                    funs.append(f)
        self.npts = 2 * len(funs) + extra
        self.pts = [ev.Point(int(rng.integers(1 << 30)), lo=.3, hi=1.7) for _ in range(self.npts)]
        self.k = np.array([[p[m] for m in self.momenta] for p in self.pts]).reshape(self.npts, len(self.momenta))
        self.E = self.values(lambda f, k: f(k))

    def __len__(self):
        return len(self.elements)

    def values(self, fun, mat=lambda m: m):
        """(npts * n * n, elements)"""
        out = np.zeros((len(self.elements), self.npts) + self.shape, complex)
        for j, el in enumerate(self.elements):
            for f, m in el:
                w = np.array([fun(f, k) for k in self.k])
                out[j] += w[:, None, None] * mat(m)
        return out

    def constraint(self, g):
        """Linear map whose null space is invariant under g (R, c, a, U) or a
        continuous generator ('cont', R, L)."""
        if isinstance(g[0], str):
            _, R, L = g
            X = np.zeros_like(self.E)
            if R is not None:
                A = 1j * np.asarray(R, complex)
                if np.max(np.abs(A.imag), initial=0) > 1e-12:
                    raise ValueError('generator of complex rotation')
                A = A.real
                X = X + self.values(lambda f, k: f.derivative(k, A @ k))
            if L is not None:
                X = X - 1j * (L @ self.E - self.E @ L)
        else:
            R, c, a, U = g
            Ri = np.linalg.inv(np.asarray(R, float)) if len(self.momenta) else np.zeros((0, 0))
            s = -1 if c else 1
            X = self.values(lambda f, k: f(s * (Ri @ k)))
            if c:
                X = X.conj()
            X = (-1 if a else 1) * (U @ X @ U.conj().T) - self.E
        X = X.reshape(len(X), self.E[0].size if len(X) else 0).T
        return real(X)

    def invariant(self, gens, block=None):
        """Orthonormal coefficient vectors (rows) of the invariant subspace."""
        n = len(self.elements)
        if not gens or not n:
            return np.eye(n)
        A = np.vstack([self.constraint(g) for g in gens])
        return symm.ratio_nullspace(A, lo=1e-9, hi=1e-6, floor=1.).real

    def coordinates(self, rec, members, msg, value=None, tol=1e-7):
        """Coefficients of the members; fails if a member is not in the space."""
        A = real(self.E.reshape(len(self.elements), self.npts * self.shape[0] * self.shape[1]).T)
        out = []
        if not len(members):
            return np.zeros((0, len(self.elements)))
        B = []
        for m in members:
            v = np.array([(value or ev.mev)(m, p) for p in self.pts])
            rec.check(v.shape == self.E.shape[1:], msg + ': shape of members', got=v.shape, want=self.E.shape[1:])
            B.append(real(v.ravel()))
        B = np.array(B).T
        if A.shape[1] == 0:
            x = np.zeros((0, B.shape[1]))
        else:
            x, _, rk, _ = np.linalg.lstsq(A, B, rcond=1e-10)
        rec.close(A @ x, B, msg, tol=tol, scale=max(1., np.max(np.abs(B))))
        return x.T


def rank(C, tol=1e-6):
    if not len(C):
        return 0
    C = C / np.maximum(np.linalg.norm(C, axis=1), 1e-300)[:, None]
    s = np.linalg.svd(C, compute_uv=False)
    if np.any((s > 1e-9) & (s < tol)):
        raise Skip('rank of the family is not clear cut')
    return int(np.sum(s > tol))


def same_span(rec, C, N, what, tol=1e-6):
    """Rows of C: independent members; rows of N: orthonormal basis of the expected span."""
    rec.check(len(C) == len(N), what + ': number of members', got=len(C), want=len(N))
    if not len(C):
        return
    size = np.linalg.norm(C, axis=1)
    rec.check(np.min(size) > 1e-7, what + ': members are nonzero', sizes=size)
    rec.check(rank(C) == len(C), what + ': members are linearly independent over the reals', rank=rank(C), n=len(C))
    res = C - (C @ N.T) @ N
    rec.close(res, np.zeros_like(res), what + ': members lie in the symmetric subspace', tol=tol, scale=max(1., np.max(np.abs(C))))


def as_op(g):
    """qsymm operator -> plain tuple"""
    if hasattr(g, 'conjugate'):
        R = ev.Rfloat(g.R)
        return (R, bool(g.conjugate), bool(g.antisymmetry), np.asarray(g.U, complex))
    return ('cont', None if g.R is None else np.array(g.R).astype(complex), None if g.U is None else np.asarray(g.U, complex))


def monomials(dim, degree, powers=None):
    powers = powers or [range(degree + 1)] * dim
    return [p for p in it.product(*powers) if sum(p) == degree]
