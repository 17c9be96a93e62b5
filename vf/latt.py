"""Brute force lattice geometry, independent of the library."""
import itertools as it

import numpy as np

from .core import Skip


def reduce_basis(B):
    """Greedy pairwise reduction until no basis vector can be shortened by combinations with coefficients up to 1 of the others."""
    B = np.array(B, float)
    n = len(B)
    for _ in range(10000):
        changed = False
        for i in range(n):
            others = [j for j in range(n) if j != i]
            if n > 1:
                # size reduction against the others one by one
                for j in others:
                    m = np.round(B[i] @ B[j] / (B[j] @ B[j]))
                    if m and np.linalg.norm(B[i] - m * B[j]) < np.linalg.norm(B[i]) * (1 - 1e-12):
                        B[i] = B[i] - m * B[j]
                        changed = True
                for c in it.product((-1, 0, 1), repeat=n - 1):
                    v = B[i] + sum((x * B[j] for x, j in zip(c, others)), np.zeros(B.shape[1]))
                    if np.linalg.norm(v) < np.linalg.norm(B[i]) * (1 - 1e-12):
                        B[i] = v
                        changed = True
        if not changed:
            return B
    raise Skip('basis is too skewed')


def points_within(B, center, R, limit=300000):
    """Integer coefficients of all lattice points closer than R to center (in the span)."""
    B = np.asarray(B, float)
    P = np.linalg.pinv(B)          # coords = v @ P
    c = np.asarray(center, float) @ P
    w = R * np.linalg.norm(P, axis=0)
    ranges = [np.arange(int(np.floor(x - y)) - 0, int(np.ceil(x + y)) + 1) for x, y in zip(c, w)]
    size = np.prod([float(len(r)) for r in ranges])
    if size > limit:
        raise Skip('too many lattice points')
    C = np.array(np.meshgrid(*ranges, indexing='ij')).reshape(len(B), -1).T
    d = np.linalg.norm((C - c) @ B, axis=1)
    return C[d <= R], d[d <= R]


def isometries(B, tol=1e-6):
    """All orthogonal matrices (in the span of the square basis B) mapping the lattice to itself."""
    B = reduce_basis(B)
    n = len(B)
    G = B @ B.T
    s = np.mean(np.diag(G))
    R = np.sqrt(np.max(np.diag(G))) * (1 + 1e-6)
    C, _ = points_within(B, np.zeros(n), R)
    V = C @ B
    l2 = np.sum(V * V, axis=1)
    out = []

    def extend(chosen):
        i = len(chosen)
        if i == n:
            W = np.array(chosen)
            out.append(np.linalg.solve(B, W).T)
            return
        for v in V[np.abs(l2 - G[i, i]) < tol * s]:
            if all(abs(v @ w - G[i, j]) < tol * s for j, w in enumerate(chosen)):
                extend(chosen + [v])
    extend([])
    return out


def relevant(B):
    """Voronoi relevant vectors, (vectors, gap); gap: smallest relative margin of the decisions."""
    B = np.asarray(B, float)
    Br = reduce_basis(B)
    n = len(B)
    T = np.round(Br @ np.linalg.pinv(B)).astype(int)      # Br = T @ B
    out = []
    margin = np.inf
    for c in it.product((0, 1), repeat=n):
        if not any(c):
            continue
        half = np.array(c) / 2 @ Br
        R = np.sum(np.linalg.norm(Br, axis=1)) / 2 * (1 + 1e-9)
        # coset c + 2L: vectors 2 * (half - x)
        C, d = points_within(Br, half, R)
        order = np.argsort(d)
        C, d = C[order], d[order]
        # the shortest come in pairs
        gap = (d[2] - d[0]) / d[0] if len(d) > 2 else np.inf
        margin = min(margin, gap if gap > 1e-9 else np.inf)
        if gap > 1e-9:
            for x in C[:2]:
                out.append((np.array(c) - 2 * x) @ T)
    return np.array(out, int).reshape(-1, n), margin
