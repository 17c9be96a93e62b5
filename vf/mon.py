"""Online monitors: wrap qsymm's public API in the harness process and check
contracts on every call, whoever makes it (the workload or qsymm itself).

Nothing in /repo is changed: methods are replaced on the classes, functions in
every qsymm module that holds a reference to them.  A monitor that finds no
target counts as unreached (it never becomes an alarm by itself).
"""
import functools
import sys

import numpy as np
import sympy
from numbers import Number

from . import ev


class Monitors:
    def __init__(self, rec, seed=0):
        self.rec = rec
        self.seed = seed
        self.busy = False          # evaluating an oracle: do not monitor it
        self.undo = []
        self.n = 0
        self.every = 1

    # -- installation ---------------------------------------------------
    def method(self, cls, name, pre=None, post=None, label=None):
        if name not in cls.__dict__:
            return
        orig = cls.__dict__[name]
        raw = orig
        label = label or '%s.%s' % (cls.__name__, name)
        mon = self

        @functools.wraps(raw)
        def wrapper(*args, **kwargs):
            if mon.busy or mon.rec is None:
                return raw(*args, **kwargs)
            mon.n += 1
            if mon.n % mon.every:
                return raw(*args, **kwargs)
            mon.busy = True
            try:
                snap = pre(*args, **kwargs) if pre else None
            finally:
                mon.busy = False
            result = raw(*args, **kwargs)
            mon.busy = True
            try:
                mon.rec.event('monitored ' + label)
                post(snap, result, *args, **kwargs)
            finally:
                mon.busy = False
            return result
        setattr(cls, name, wrapper)
        self.undo.append((cls, name, orig))

    def function(self, module, name, pre=None, post=None):
        orig = getattr(module, name, None)
        if orig is None:
            return
        mon = self

        @functools.wraps(orig)
        def wrapper(*args, **kwargs):
            if mon.busy or mon.rec is None:
                return orig(*args, **kwargs)
            mon.busy = True
            try:
                snap = pre(*args, **kwargs) if pre else None
            finally:
                mon.busy = False
            result = orig(*args, **kwargs)
            mon.busy = True
            try:
                mon.rec.event('monitored ' + name)
                post(snap, result, *args, **kwargs)
            finally:
                mon.busy = False
            return result
        for m in list(sys.modules.values()):
            if getattr(m, '__name__', '').startswith('qsymm') and getattr(m, '__dict__', None):
                for k, v in list(vars(m).items()):
                    if v is orig:
                        setattr(m, k, wrapper)
                        self.undo.append((m, k, orig))

    def remove(self):
        for obj, name, orig in reversed(self.undo):
            setattr(obj, name, orig)
        self.undo = []

    def __enter__(self):
        return self

    def __exit__(self, *exc):
        self.remove()

    def pts(self):
        return ev.points(self.seed + 17, 2)

    # -- contracts ------------------------------------------------------
    def model_algebra(self):
        import qsymm
        M, B = qsymm.Model, qsymm.BlochModel
        rec = self.rec

        def val(x, pt):
            if isinstance(x, M):
                return ev.mev(x, pt)
            if isinstance(x, Number):
                return np.array(complex(x))
            if isinstance(x, (sympy.Basic, sympy.MatrixBase)):
                return ev.smev(x, pt)
            return ev.dense(x)

        def scale(x, pt):
            if isinstance(x, M):
                return ev.mev_scale(x, pt)
            v = val(x, pt)
            return float(np.max(np.abs(v))) if v.size else 0.

        def simple(x):
            # operands the numeric semantics covers without the truncation by `keep`
            return not (isinstance(x, M) and (x.keep or x.shape is None))

        def binary(op, additive):
            def pre(self_, other):
                if not (simple(self_) and simple(other)):
                    return None
                if isinstance(other, M) and self_.momenta != other.momenta:
                    return None
                if not isinstance(other, (M, Number, sympy.Basic, np.ndarray)):
                    return None
                return [(p, val(self_, p), val(other, p), scale(self_, p), scale(other, p)) for p in self.pts()]

            def post(snap, result, self_, other):
                if snap is None or not isinstance(result, M):
                    return
                for p, a, b, sa, sb in snap:
                    if additive and a.shape != b.shape and not b.any():
                        want = a
                    elif additive and a.shape != b.shape and not a.any():
                        want = b
                    else:
                        want = op(a, b)
                    got = ev.mev(result, p)
                    if got.shape != want.shape and not got.any() and not want.any():
                        continue
                    rec.close(got, want, 'online: %s of models is pointwise' % op.__name__,
                              scale=(sa + sb if additive else max(1, sa) * max(1, sb)))
            return pre, post

        def add(a, b): return a + b
        def radd(a, b): return b + a
        def sub(a, b): return a - b
        def mul(a, b): return a * b
        def rmul(a, b): return b * a
        def matmul(a, b): return a @ b
        def rmatmul(a, b): return b @ a
        for cls in (M, B):
            for name, op, additive in (('__add__', add, 1), ('__radd__', radd, 1), ('__sub__', sub, 1),
                                       ('__mul__', mul, 0), ('__rmul__', rmul, 0),
                                       ('__matmul__', matmul, 0), ('__rmatmul__', rmatmul, 0)):
                pre, post = binary(op, additive)
                self.method(cls, name, pre, post)

            def unary(op, label):
                def pre(self_, *a):
                    return [(p, ev.mev(self_, p), ev.mev_scale(self_, p)) for p in self.pts()] if simple(self_) else None

                def post(snap, result, *a):
                    if snap is None:
                        return
                    for p, x, s in snap:
                        rec.close(ev.mev(result, p), op(x), 'online: %s of a model is pointwise' % label, scale=s)
                return pre, post
            for name, op in (('__neg__', lambda x: -x), ('conj', np.conj), ('T', np.transpose),
                             ('copy', lambda x: x)):
                pre, post = unary(op, name)
                self.method(cls, name, pre, post)
            # one closure per class: rotate_momenta is overridden by BlochModel
            def rot_pre(self_, R):
                if not simple(self_):
                    return None
                return [(p, ev.mev(self_, ev.rotated(p, self_.momenta, ev.Rfloat(R))),
                         ev.mev_scale(self_, p)) for p in self.pts()]

            def rot_post(snap, result, self_, R):
                if snap is None:
                    return
                for p, want, s in snap:
                    rec.close(ev.mev(result, p), want, 'online: rotate_momenta evaluates at R k', scale=max(10, 100 * s))
            self.method(cls, 'rotate_momenta', rot_pre, rot_post)
        return self

    def group_ops(self):
        import qsymm
        P = qsymm.PointGroupElement
        rec = self.rec

        def mul_post(snap, r, g, h):
            rec.close(ev.Rfloat(r.R), ev.Rfloat(g.R) @ ev.Rfloat(h.R), 'online: spatial part of product', tol=1e-4)
            rec.check(bool(r.conjugate) == (bool(g.conjugate) != bool(h.conjugate)), 'online: conjugation of product')
            rec.check(bool(r.antisymmetry) == (bool(g.antisymmetry) != bool(h.antisymmetry)),
                      'online: antisymmetry of product')
            if g.U is not None and h.U is not None:
                rec.close(r.U, g.U @ (h.U.conj() if g.conjugate else h.U), 'online: unitary part of product')
            else:
                rec.check(r.U is None, 'online: product without unitary part')
        self.method(P, '__mul__', None, mul_post)

        def inv_post(snap, r, g):
            rec.close(ev.Rfloat(r.R) @ ev.Rfloat(g.R), np.eye(g.R.shape[0]), 'online: spatial part of inverse', tol=1e-4)
            rec.check((bool(r.conjugate), bool(r.antisymmetry)) == (bool(g.conjugate), bool(g.antisymmetry)),
                      'online: type of inverse')
            if g.U is not None and np.allclose(g.U @ g.U.conj().T, np.eye(len(g.U))):
                V = r.U.conj() if g.conjugate else r.U
                rec.close(g.U @ V, np.eye(len(g.U)), 'online: unitary part of inverse')
        self.method(P, 'inv', None, inv_post)

        def eq_post(snap, r, g, h):
            if isinstance(h, P) and r is True or isinstance(r, np.bool_) and r:
                rec.check(hash(g) == hash(h), 'online: equal operators have equal hashes', g=repr(g), h=repr(h))
        self.method(P, '__eq__', None, eq_post)
        return self

    def symmetry_action(self):
        import qsymm
        P = qsymm.PointGroupElement
        rec = self.rec

        def pre(g, model):
            if model.keep or model.shape is None:
                return None
            return [(p, ev.apply_oracle(g, model, p), ev.mev_scale(model, p)) for p in self.pts()]

        def post(snap, r, g, model):
            if snap is None:
                return
            for p, want, s in snap:
                rec.close(ev.mev(r, p), want, 'online: action of symmetry operator', scale=max(10, 100 * s))
        self.method(P, 'apply', pre, post)
        return self

    def linalg(self):
        from qsymm import linalg as ql
        import scipy.sparse as sp
        rec = self.rec

        def ns_pre(A, *a, **k):
            return ev.dense(A)

        def ns_post(A, r, A_, atol=1e-6, return_complement=False, sparse=None, k_max=-10):
            ns = r[0] if isinstance(r, tuple) else r
            ns = np.asarray(ns)
            if A.size == 0:
                return
            s = np.linalg.svd(A, compute_uv=False)
            if np.any((s > atol / 30) & (s < atol * 30)):
                rec.event('near-degenerate null space (not judged)')
                return
            is_sparse = sparse or (sparse is None and sp.issparse(A_))
            if is_sparse and np.any((s > 1e-8) & (s**2 < 30 * atol)):
                rec.event('near-degenerate null space (not judged)')
                return
            dim = A.shape[1] - int(np.sum(s > atol))
            if is_sparse and k_max > 0:
                dim = min(dim, k_max)
            rec.check(len(ns) == dim, 'online: dimension of null space', got=len(ns), expected=dim, shape=A.shape)
            if len(ns):
                rec.close(ns @ ns.conj().T, np.eye(len(ns)), 'online: null space basis orthonormal', tol=1e-6)
                rec.close(A @ ns.T, np.zeros((len(A), len(ns))), 'online: null space annihilated', tol=1e-5)
        self.function(ql, 'nullspace', ns_pre, ns_post)

        def sm_pre(HL, HR=None, **k):
            return [ev.dense(h) for h in HL], [ev.dense(h) for h in (HL if HR is None else HR)]

        def sm_post(snap, r, HL_, HR_=None, hermitian=False, traceless=False, conjugate=False, sparse=None, k_max=-10):
            HL, HR = snap
            conj = [conjugate] * len(HL) if isinstance(conjugate, bool) else list(conjugate)
            for X in r:
                for hl, hr, c in zip(HL, HR, conj):
                    if c and not hermitian:
                        continue
                    rec.close(X @ hl, hr @ (X.conj() if c else X), 'online: solution of matrix equation', tol=1e-5)
                if hermitian:
                    rec.close(X, X.conj().T, 'online: solution is Hermitian', tol=1e-6)
                if traceless:
                    rec.check(abs(np.trace(X)) < 1e-6, 'online: solution is traceless')
            if len(r):
                rk = np.linalg.matrix_rank(np.array([np.asarray(X).ravel() for X in r]), tol=1e-6)
                rec.check(rk == len(r), 'online: solutions independent')
        self.function(ql, 'solve_mat_eqn', sm_pre, sm_post)

        def rr_post(snap, r, m, rtol=1e-3, return_S=False):
            if return_S:
                red, S = r
                rec.close(S @ np.asarray(m), red, 'online: row reduction transformation',
                          scale=max(1., np.max(np.abs(S)) * np.max(np.abs(m))) if np.size(m) else 1., tol=1e-6)
        self.function(ql, 'rref', None, rr_post)

        def sd_post(snap, Ps, mats, tol=1e-6, checks=0):
            U = np.hstack(Ps)
            rec.close(U.conj().T @ U, np.eye(U.shape[1]), 'online: common eigenvectors orthonormal', tol=1e-6)
            for m in mats:
                d = U.conj().T @ m @ U
                rec.close(d, np.diag(np.diag(d)), 'online: simultaneously diagonal', tol=1e-4)
        self.function(ql, 'simult_diag', None, sd_post)
        return self

    def no_mutation(self):
        """Inputs of every public call keep their content digest."""
        import qsymm
        from qsymm import hamiltonian_generator as hg, symmetry_finder as sf, linalg as ql, groups as qg, kwant_linalg_lll as kl
        rec = self.rec

        def mk(label):
            def pre(*a, **k):
                return [ev.digest(x) for x in a], {n: ev.digest(x) for n, x in k.items()}

            def post(snap, r, *a, **k):
                for i, (old, x) in enumerate(zip(snap[0], a)):
                    rec.check(ev.digest(x) == old, 'online: %s changed its argument %d' % (label, i))
                for n, x in k.items():
                    rec.check(ev.digest(x) == snap[1][n], 'online: %s changed its argument %s' % (label, n))
            return pre, post
        for cls, names in ((qsymm.Model, ('__add__', '__radd__', '__neg__', '__sub__', '__mul__', '__rmul__',
                                          '__matmul__', '__rmatmul__', '__truediv__', 'rotate_momenta', 'subs', 'conj',
                                          'T', 'trace', 'around', 'tosympy', 'evalf', 'tocsr', 'toarray', 'copy',
                                          'lambdify', 'allclose', 'eliminate_zeros', 'value_list')),
                           (qsymm.BlochModel, ('rotate_momenta', 'conj', 'subs', 'tosympy', 'tomodel')),
                           (qsymm.PointGroupElement, ('__mul__', '__pow__', 'inv', 'apply', '__eq__', 'identity')),
                           (qsymm.ContinuousGroupGenerator, ('apply',))):
            for n in names:
                pre, post = mk('%s.%s' % (cls.__name__, n))
                self.method(cls, n, pre, post)
        for mod, names in ((hg, ('continuum_hamiltonian', 'continuum_pairing', 'bloch_family', 'constrain_family',
                                 'remove_duplicates', 'subtract_family', 'make_basis_pretty', 'symmetrize_monomial',
                                 'check_symmetry', 'hamiltonian_from_family', 'round_family')),
                           (sf, ('symmetries', 'discrete_symmetries', 'conserved_quantities', 'continuous_symmetries',
                                 'bravais_point_group', 'symmetry_adapted_sun', 'separate_lie_algebra')),
                           (ql, ('nullspace', 'solve_mat_eqn', 'simult_diag', 'rref', 'sparse_basis', 'allclose',
                                 'family_to_vectors')),
                           (qg, ('generate_group', 'generate_subgroups')),
                           (kl, ('lll', 'cvp', 'voronoi'))):
            for n in names:
                pre, post = mk(n)
                self.function(mod, n, pre, post)
        return self
