"""P07: symmetry operators obey the group laws with consistent equality."""
import itertools as it

import numpy as np
import sympy
import tinyarray as ta

from .. import ev, gen, pipelines
from ..mon import Monitors

RULE = ('states are (workload, dimension, representations of the rotation matrices, flags, exponents); every product, inverse, '
        'power and comparison is judged with a reference operator made of plain numpy arrays')
REQUIRED_EVENTS = ('associativity', 'power', 'strict equality', 'equal across representations', 'set', 'sort',
                   'exact product became integer', 'strictness inherited', 'monitored PointGroupElement.__mul__')
ASSUMPTIONS = ['operators that differ by less than 1e-4 are only compared if they agree to 1e-9 (tolerance of allclose)',
               'floating point and exact sympy rotations are not multiplied with each other (documented)']

S3 = sympy.sqrt(3)


class Ref:
    """Reference operator: plain arrays."""

    def __init__(self, R, c, a, U):
        self.R, self.c, self.a, self.U = np.asarray(R, float), bool(c), bool(a), U

    def __mul__(self, o):
        U = None
        if self.U is not None and o.U is not None:
            U = self.U @ (o.U.conj() if self.c else o.U)
        return Ref(self.R @ o.R, self.c != o.c, self.a != o.a, U)

    def inv(self):
        U = None if self.U is None else (self.U.T if self.c else self.U.conj().T)
        return Ref(np.linalg.inv(self.R), self.c, self.a, U)

    def one(self):
        return Ref(np.eye(len(self.R)), False, False, None if self.U is None else np.eye(len(self.U)))

    def pow(self, n):
        r = self.one()
        g = self if n >= 0 else self.inv()
        for _ in range(abs(n)):
            r = r * g
        return r

    def same(self, o):
        return self.c == o.c and self.a == o.a and np.max(np.abs(self.R - o.R)) < 1e-7 * max(1, np.max(np.abs(self.R)))

    def differ(self, o):
        return self.c != o.c or self.a != o.a or np.max(np.abs(self.R - o.R)) > 1e-3 * max(1, np.max(np.abs(self.R)))

    def same_phase(self, o):
        if not self.same(o):
            return False
        if self.U is None or o.U is None:
            return self.U is None and o.U is None
        W = self.U.conj().T @ o.U
        return np.allclose(W, W[0, 0] * np.eye(len(W)), atol=1e-7)


def agree(rec, g, ref, msg, scale=1.):
    tol = 1e-6
    rec.close(ev.Rfloat(g.R), ref.R, msg + ': spatial part', tol=tol, scale=max(1., np.max(np.abs(ref.R))) * scale)
    rec.check(bool(g.conjugate) == ref.c, msg + ': conjugation')
    rec.check(bool(g.antisymmetry) == ref.a, msg + ': antisymmetry')
    if ref.U is None:
        rec.check(g.U is None, msg + ': no unitary part')
    else:
        rec.check(g.U is not None, msg + ': has unitary part')
        rec.close(g.U, ref.U, msg + ': unitary part', tol=1e-8)


def int_R(rng, d):
    if d == 2 and rng.random() < 0.3:
        return [np.array([[0, -1], [1, -1]]), np.array([[1, -1], [1, 0]]), np.array([[0, 1], [1, 0]])][int(rng.integers(3))]
    if rng.random() < 0.2:
        return gen.unimodular(rng, d, steps=2, size=1)
    P = np.eye(d, dtype=int)[rng.permutation(d)]
    return P * rng.choice([-1, 1], d)[:, None]


def sympy_R(rng, d):
    """Exact matrices of a (hexagonal or cubic) point group."""
    if d == 1:
        return sympy.ImmutableMatrix([[int(rng.choice([-1, 1]))]])
    c, s = gen.choice(rng, [(sympy.Rational(-1, 2), S3 / 2), (sympy.Rational(1, 2), S3 / 2), (sympy.sqrt(2) / 2, sympy.sqrt(2) / 2),
                            (sympy.Integer(0), sympy.Integer(1)), (sympy.Rational(3, 5), sympy.Rational(4, 5))])
    M = sympy.eye(d).as_mutable()
    i, j = sorted(rng.choice(d, 2, replace=False).tolist())
    M[i, i], M[i, j], M[j, i], M[j, j] = c, -s, s, c
    if rng.random() < 0.3:
        M[:, i] = -M[:, i]
    return sympy.ImmutableMatrix(M)


def float_R(rng, d):
    if d > 1 and rng.random() < 0.5:
        R = np.eye(d)
        i, j = sorted(rng.choice(d, 2, replace=False).tolist())
        phi = 2 * np.pi / gen.choice(rng, [3, 6, 8, 5, 12])
        R[i, i] = R[j, j] = np.cos(phi)
        R[i, j], R[j, i] = -np.sin(phi), np.sin(phi)
        return R * (-1 if rng.random() < 0.2 else 1)
    return gen.orthogonal(rng, d)


def form(rng, R):
    """Same matrix in another accepted container."""
    if isinstance(R, sympy.MatrixBase):
        return gen.choice(rng, [R, sympy.Matrix(R)])
    if R.dtype.kind == 'i':
        return gen.choice(rng, [R, ta.array(R, int), R.astype(float), ta.array(R, float), sympy.ImmutableMatrix(R), sympy.Matrix(R)])
    return gen.choice(rng, [R, ta.array(R, float)])


def operator(rng, d, kind, n, strict=False):
    import qsymm
    k = gen.choice(rng, ['int', kind])
    R = int_R(rng, d) if k == 'int' else sympy_R(rng, d) if k == 'sympy' else float_R(rng, d)
    c, a = bool(rng.random() < 0.5), bool(rng.random() < 0.4)
    U = None if n is None else gen.unitary(rng, n)
    g = qsymm.PointGroupElement(form(rng, R), c, a, None if U is None else U.copy(), _strict_eq=strict)
    return g, Ref(ev.Rfloat(R), c, a, U)


def laws(rng, rec):
    d = int(rng.integers(1, 5))
    kind = gen.choice(rng, ['float', 'sympy', 'int'])
    n = gen.choice(rng, [None, 1, 2, 2, 3])
    strict = bool(rng.random() < 0.4)
    ops = [operator(rng, d, kind, n, strict and rng.random() < .8) for _ in range(3)]
    (a, ra), (b, rb), (c, rc) = ops
    rec.note(ops=[repr(o) for o, _ in ops], strict=strict)
    digs = [ev.digest(o) for o, _ in ops]
    agree(rec, a * b, ra * rb, 'product')
    l, r, ref = (a * b) * c, a * (b * c), (ra * rb) * rc
    agree(rec, l, ref, '(ab)c')
    agree(rec, r, ref, 'a(bc)')
    rec.check(l == r and hash(l) == hash(r), 'product is associative')
    rec.event('associativity')
    agree(rec, a.inv(), ra.inv(), 'inverse')
    agree(rec, a.identity(), ra.one(), 'identity')
    for x, rx in ((a, ra), (l, ref)):
        one = x.identity()
        for y in (x * x.inv(), x.inv() * x):
            agree(rec, y, rx.one(), 'g g^-1')
            rec.check(y == one and one == y and hash(y) == hash(one), 'g g^-1 equals the identity')
        rec.check(x.inv().inv() == x, 'inverse of inverse')
        rec.check(x * one == x and one * x == x, 'identity is neutral')
        rec.check((x * c).inv() == c.inv() * x.inv(), 'inverse of product')
    m, k = int(rng.integers(-4, 5)), int(rng.integers(-4, 5))
    if rng.random() < .3 and kind != 'sympy' and np.allclose(ra.R @ ra.R.T, np.eye(d)):
        m = int(rng.integers(5, 60)) * int(gen.choice(rng, [1, -1]))
        rec.event('high power')
    agree(rec, a ** m, ra.pow(m), 'power %s' % ('negative' if m < 0 else 'positive'))
    agree(rec, a ** m * a ** k, ra.pow(m + k), 'g^m g^n')
    rec.check(a ** m * a ** k == a ** (m + k), 'g^m g^n equals g^(m+n)')
    rec.check((a ** m) ** k == a ** (m * k), '(g^m)^n equals g^(mn)')
    rec.event('power')
    # strict comparison is inherited by everything computed from the operator
    if n is not None:
        import qsymm
        sa, sb, m2 = a._strict_eq, b._strict_eq, m or 2
        for name, x, rx, st in (('product', a * b, ra * rb, sa or sb), ('inverse', a.inv(), ra.inv(), sa), ('power', a ** m2, ra.pow(m2), sa),
                                ('product with inverse', a.inv() * b.inv(), ra.inv() * rb.inv(), sa or sb), ('inverse of product', (a * b).inv(), (ra * rb).inv(), sa or sb)):
            W = gen.unitary(rng, n) if rng.random() < .7 else rx.U * np.exp(1j * rng.uniform(0, 7))
            y = qsymm.PointGroupElement(x.R, x.conjugate, x.antisymmetry, W)
            want = not st or Ref(rx.R, rx.c, rx.a, W).same_phase(rx)
            rec.check(bool(x == y) is want and bool(y == x) is want, 'comparison of %s %s its unitary part' % (name, 'depends on' if st else 'ignores'),
                      x=repr(x), y=repr(y), expected=want)
            if st:
                rec.event('strictness inherited')
    rec.check([ev.digest(o) for o, _ in ops] == digs, 'operators are not changed by group operations')
    rec.sig('laws', d, kind, n, strict, ra.c, ra.a, rb.c, rb.a, m, k, len({type(o.R).__name__ for o, _ in ops}))


def equality(rng, rec):
    import qsymm
    d = int(rng.integers(1, 4))
    n = gen.choice(rng, [1, 2, 2, 3])
    kinds = gen.choice(rng, [('int',), ('float',), ('sympy',), ('sympy', 'float')])
    strict = bool(rng.random() < 0.6)
    pool = []
    for _ in range(4):
        g, r = operator(rng, d, gen.choice(rng, kinds), n)
        pool.append((g.R, r))
    # variants of the same operators
    out = []
    for R, r in pool:
        for _ in range(3):
            v = gen.choice(rng, ['same', 'phase', 'other U', 'no U', 'conj', 'repr', 'flag', 'minus', 'noise'])
            R2, U, c, a = R, r.U, r.c, r.a
            if v == 'phase':
                U = r.U * np.exp(1j * rng.uniform(0, 7))
            elif v == 'other U':
                U = gen.unitary(rng, n)
            elif v == 'no U':
                U = None
            elif v == 'conj':
                U = r.U.conj()
            elif v == 'minus':
                U = r.U @ np.diag([1.] * (n - 1) + [-1.])
            elif v == 'noise':
                U = r.U * np.exp(1e-12j)
            elif v == 'flag':
                c = not c
            elif v == 'repr':
                if isinstance(R, sympy.MatrixBase):
                    R2 = ev.Rfloat(R)
                    rec.event('equal across representations')
                elif isinstance(R, ta.ndarray_int):
                    R2 = gen.choice(rng, [sympy.ImmutableMatrix(np.array(R)), np.array(R).astype(float) * (1 + 1e-15), np.array(R)])
                    rec.event('equal across representations')
            g = qsymm.PointGroupElement(R2, c, a, U, _strict_eq=strict)
            out.append((g, Ref(ev.Rfloat(R2), c, a, U)))
    rec.note(ops=[repr(g) for g, _ in out], strict=strict)
    mixed = len({t for g, _ in out for t in [isinstance(g.R, sympy.MatrixBase), isinstance(g.R, ta.ndarray_float)] if t}) and \
        any(isinstance(g.R, sympy.MatrixBase) for g, _ in out) and any(isinstance(g.R, ta.ndarray_float) for g, _ in out)
    if mixed and strict:
        # strict comparison multiplies the operators, which is not allowed for mixed representations
        strict = False
        for g, _ in out:
            g._strict_eq = False
    classes = []
    for g, r in out:
        for h, s in out:
            if not r.same(s) and not r.differ(s):
                rec.skip('operators too close')
            want = r.same(s)
            if strict and want:
                want = r.same_phase(s)
                rec.event('strict equality')
            got = g == h
            rec.check(bool(got) is bool(want), 'equality %s' % ('in strict mode' if strict else 'ignores the unitary part'),
                      g=repr(g), h=repr(h), expected=want)
            if want:
                rec.check(hash(g) == hash(h), 'equal operators have equal hashes', g=repr(g), h=repr(h))
        for cl in classes:
            if r.same(cl[0]) and (not strict or r.same_phase(cl[0])):
                break
        else:
            classes.append((r,))
    s = {g for g, _ in out}
    rec.check(len(s) == len(classes), 'set of operators has one element for every class', got=len(s), expected=len(classes))
    rec.check(all(g in s for g, _ in out), 'membership in sets')
    rec.check(len(s | {g for g, _ in reversed(out)}) == len(classes), 'union of sets does not depend on the order')
    rec.event('set')
    sort_check(rng, rec, [x for x in out])
    rec.sig('equality', d, n, kinds, strict, len(classes))


def sort_check(rng, rec, out):
    # distinct classes (ignoring U)
    distinct = []
    for g, r in out:
        if all(not r.same(s) for _, s in distinct):
            distinct.append((g, r))
    for (g, r), (h, s) in it.combinations(distinct, 2):
        rec.check(bool(g < h) != bool(h < g), 'distinct operators are ordered one way', g=repr(g), h=repr(h))
        if (r.c, r.a) == (s.c, s.a):
            if np.allclose(r.R, np.eye(len(r.R)), atol=1e-9):
                rec.check(bool(g < h), 'identity rotation comes first', h=repr(h))
    for (g, _), (h, _), (k, _) in it.permutations(distinct, 3):
        if g < h and h < k:
            rec.check(bool(g < k), 'order is transitive', ops=[repr(x) for x in (g, h, k)])
    a = sorted([g for g, _ in distinct])
    b = sorted([distinct[i][0] for i in rng.permutation(len(distinct))])
    rec.check(all(x == y for x, y in zip(a, b)), 'sorting does not depend on the original order')
    for (g, _) in distinct:
        rec.check(not g < g, 'order is irreflexive')
    rec.event('sort')


def exact(rng, rec):
    """Exact products that become integer again; long histories."""
    import qsymm
    d = int(rng.integers(2, 4))
    rep = gen.choice(rng, ['sympy', 'sympy', 'float'])
    i, j = sorted(rng.choice(d, 2, replace=False).tolist())
    n = gen.choice(rng, [3, 4, 6, 8, 12] if rep == 'sympy' else [3, 4, 5, 6, 7, 8, 12])
    k = int(rng.integers(1, n))
    phi = 2 * sympy.pi * k / n
    M = sympy.eye(d).as_mutable()
    M[i, i], M[i, j], M[j, i], M[j, j] = sympy.cos(phi), -sympy.sin(phi), sympy.sin(phi), sympy.cos(phi)
    R = sympy.ImmutableMatrix(M) if rep == 'sympy' else np.array(M).astype(float)
    U = gen.unitary(rng, 2)
    # U with U^n = 1 for definiteness
    V = gen.unitary(rng, 2)
    U = V @ np.diag(np.exp(2j * np.pi * rng.integers(0, n, 2) / n)) @ V.conj().T
    g = qsymm.PointGroupElement(R, False, False, U, _strict_eq=bool(rng.random() < 0.5))
    rec.note(R=R, n=n, k=k, rep=rep)
    p, els = g.identity(), []
    for q in range(1, n + 1):
        p = p * g
        els.append(p)
        ref = Ref(np.linalg.matrix_power(ev.Rfloat(R), q), False, False, np.linalg.matrix_power(U, q))
        agree(rec, p, ref, 'repeated product')
        want_int = np.allclose(ref.R, np.round(ref.R), atol=1e-9)
        if want_int:
            rec.event('exact product became integer')
            h = qsymm.PointGroupElement(np.round(ref.R).astype(int), False, False, ref.U)
            rec.check(p == h and h == p and hash(p) == hash(h) and h in {p} and p in {h},
                      'product with integer matrix equals the integer operator', R=p.R)
    rec.check(p == g.identity() and hash(p) == hash(g.identity()), 'g^n is the identity')
    order = next(q for q in range(1, n + 1) if np.allclose(np.linalg.matrix_power(ev.Rfloat(R), q), np.eye(d)))
    distinct = len({(round(x, 6), round(y, 6)) for x, y in
                    [(np.cos(2 * np.pi * k * q / n), np.sin(2 * np.pi * k * q / n)) for q in range(n)]})
    if not g._strict_eq:
        rec.check(len(set(els)) == order == distinct, 'powers of a rotation form the cyclic group', got=len(set(els)), expected=order)
        rec.check(set(els) == qsymm.groups.generate_group({g}), 'generated cyclic group')
    rec.sig('exact', d, n, k, rep, i, j, g._strict_eq)


def construction(rng, rec):
    """Containers of R and U, flags, invalid input."""
    import qsymm
    P = qsymm.PointGroupElement
    d = int(rng.integers(1, 4))
    R = int_R(rng, d)
    name = gen.choice(rng, ['sigma_x', 'sigma_y', 'kron(sigma_y, sigma_z)', 'array', 'list', 'sympy', 'locals', 'scalar', '1j*'])
    sx, sy, sz = np.array([[0, 1], [1, 0]]), np.array([[0, -1j], [1j, 0]]), np.diag([1, -1])
    kw = {}
    U, want = {'sigma_x': ('sigma_x', sx), 'sigma_y': ('sigma_y', sy), 'kron(sigma_y, sigma_z)': ('kron(sigma_y, sigma_z)', np.kron(sy, sz)),
               'array': (sy, sy), 'list': (sx.tolist(), sx), 'sympy': (sympy.Matrix([[0, -sympy.I], [sympy.I, 0]]), sy),
               'locals': ('w * sigma_z', -1j * sz), 'scalar': (-1, np.array([[-1]])), '1j*': ('I * sigma_y', 1j * sy)}[name]
    if name == 'locals':
        kw['locals'] = {'w': '-I'}
    forms = [R, R.astype(float), ta.array(R, int), ta.array(R, float), sympy.Matrix(R), sympy.ImmutableMatrix(R)]
    rec.note(R=R, U=U)
    gs = [P(f, True, False, U, **kw) for f in forms]
    for g in gs:
        agree(rec, g, Ref(R, True, False, np.asarray(want, complex)), 'construction from %s' % name)
        rec.check(g == gs[0] and hash(g) == hash(gs[0]), 'operators do not depend on the container of R')
        rec.check(isinstance(g.U, np.ndarray) and g.U.ndim == 2, 'U is a matrix')
    rec.raises(ValueError, lambda: P(R.tolist()), 'list as rotation matrix')
    g = P(R)
    rec.check(g.U is None and not g.conjugate and not g.antisymmetry, 'defaults')
    # mixing floating point and exact matrices is rejected, integer matrices go with both
    if d > 1:
        f, s = P(gen.orthogonal(rng, d)), P(sympy_R(rng, d))
        if not isinstance(s.R, ta.ndarray_int):
            rec.raises(ValueError, lambda: f * s, 'product of floating point and sympy operators')
            agree(rec, g * s, Ref(R, 0, 0, None) * Ref(ev.Rfloat(s.R), 0, 0, None), 'integer times sympy')
            agree(rec, s * g, Ref(ev.Rfloat(s.R), 0, 0, None) * Ref(R, 0, 0, None), 'sympy times integer')
        agree(rec, g * f, Ref(R, 0, 0, None) * Ref(ev.Rfloat(f.R), 0, 0, None), 'integer times float')
    rec.event('construction')
    rec.sig('construction', d, name, R.tobytes())


def sessions(rng, rec):
    mon = Monitors(rec, int(rng.integers(1 << 20)))
    with mon.group_ops():
        name = pipelines.run(rng, rec, ('lattice', 'lattice', 'kdotp', 'bloch'))
    rec.check(True, 'session finished')
    rec.sig('session', name, mon.n // 50)


FAMILIES = {
    'laws': (laws, 1500, 20000),
    'equality': (equality, 600, 9000),
    'exact': (exact, 400, 4000),
    'construction': (construction, 200, 2000),
    'sessions': (sessions, 32, 300),
}
