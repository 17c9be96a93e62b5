"""P16: symmetry search results do not depend on presentation."""
import itertools as it

import numpy as np
import sympy

from .. import ev, gen, symm
from .p14 import smallest
from .p15 import coords, derivative, assemble, isotropic3, charges2, rotation_space

RULE = ('states are (workload, dimension, kind, number of candidates, sector sizes, multiplicities, size of the result, '
        'transformation of the presentation); every transformed search is compared with the result of the first one')
REQUIRED_EVENTS = ('basis', 'terms reordered', 'parameters rescaled', 'parameters recombined', 'sparse storage',
                   'sparse linear algebra', 'BlochModel', 'renamed momenta', 'exchanged momentum names', 'candidate order',
                   'shifted by identity', 'rotated coordinates', 'nontrivial symmetries', 'conserved quantities',
                   'continuous rotations', 'composition', 'energy unit', 'parameters of different magnitude')
ASSUMPTIONS = ['models are Hermitian for real momenta and parameters',
               'candidates form a group, and are transformed with the coordinates']


def result(H, C, generators=False, rotations=True, **kw):
    import qsymm
    d, c = qsymm.symmetries(H, C, generators=generators, continuous_rotations=rotations, **kw)
    return list(d), list(c)


def summarize(rec, d, c, dim):
    ops = [symm.abstract(g) for g in d]
    n_on = sum(1 for g in c if g.R is None or np.max(np.abs(np.array(g.R).astype(complex)), initial=0) < 1e-12)
    rot = [coords((1j * np.array(g.R).astype(complex)).real, dim) for g in c[n_on:]]
    return ops, n_on, rot


def same_set(a, b):
    return len(a) == len(b) and all(symm.contains(b, x) for x in a) and all(symm.contains(a, x) for x in b)


def model(terms, H):
    import qsymm
    return qsymm.Model(terms, momenta=H.momenta)


def hermitian_parts(H):
    """Terms grouped into Hermitian pieces: list of lists of keys."""
    pts = [ev.Point(77 + i) for i in range(3)]
    vals = {k: np.array([ev.bkev(k, p, H.momenta) for p in pts]) for k in H.keys()}
    rest, out = list(H.keys()), []
    while rest:
        k = rest.pop(0)
        if np.max(np.abs(vals[k].imag)) < 1e-12 * max(1, np.max(np.abs(vals[k]))):
            out.append([k])
            continue
        for q in rest:
            if np.max(np.abs(vals[q] - vals[k].conj())) < 1e-9:
                rest.remove(q)
                out.append([k, q])
                break
        else:
            return None
    return out


def expandk(key):
    return sympy.expand_power_exp(sympy.expand_power_base(sympy.expand(key)))


class State:
    """A presentation: the model, its candidates, options, and what is expected."""

    def __init__(self, H, C, ops, n_on, rot, kind, rk):
        self.H, self.C, self.ops, self.n_on, self.rot = H, C, ops, n_on, rot
        self.kind, self.rk = kind, rk
        self.opts = {}


def basis(rng, rec, s):
    n = s.H.shape[0]
    W = symm.basis_change(rng, n) if rng.random() < .5 else gen.unitary(rng, n)
    s.H = model({k: W @ ev.dense(v) @ W.conj().T for k, v in s.H.items()}, s.H)
    return 'basis'


def reorder(rng, rec, s):
    items = list(s.H.items())
    s.H = model({items[i][0]: items[i][1] for i in rng.permutation(len(items))}, s.H)
    return 'terms reordered'


LOG = 3.5     # the searches work with an absolute precision of 1e-6


def rescale(rng, rec, s, wide=None):
    scale = {}
    wide = rng.random() < .5 if wide is None else wide
    for p in gen.PARAMS + ['c_0', 'c_1', 'c_2', 'c_3', 'c_4', 'c_5', 'c_6', 'c_7']:
        scale[gen.sym(p)] = float(rng.choice([-1, 1]) * (10 ** rng.uniform(-LOG, 0) if wide and rng.random() < .6 else rng.uniform(.5, 2)))
    out = {}
    for k, v in s.H.items():
        f = 1.
        for p, x in k.as_powers_dict().items():
            if p in scale and p not in s.H.momenta:
                f *= scale[p] ** int(x)
        if abs(f) < 10 ** -LOG:
            return None
        out[k] = v * f
    if wide:
        if not out or smallest([ev.dense(v) for v in out.values()]) < 3e-5:
            return None
        rec.event('parameters of different magnitude')
    s.H = model(out, s.H)
    return 'parameters rescaled'


def recombine(rng, rec, s):
    """c_i T_i with independent parameters c_i -> invertible linear combinations of them."""
    parts = hermitian_parts(s.H)
    if parts is None or len(parts) < 1 or any(str(a).startswith('c_') for k in s.H for a in k.atoms(sympy.Symbol)):
        return None
    if len(parts) > 8:
        return None
    n = len(parts)
    cs = [gen.sym('c_%d' % i) for i in range(n)]
    first = {cs[i] * k: s.H[k] for i in range(n) for k in parts[i]}
    A = gen.orthogonal(rng, n) * rng.uniform(.6, 1.6, n)
    second = {}
    for i in range(n):
        for j in range(n):
            if abs(A[i, j]) < 1e-3:
                A[i, j] = 0
                continue
            for k in parts[j]:
                second[cs[i] * k] = A[i, j] * s.H[k]
    if abs(np.linalg.det(A)) < 1e-3:
        return None
    # independent parameters: this is another family, so a new reference is needed
    s.H = model(first, s.H)
    reference(rec, s)
    s.H = model(second, s.H)
    return 'parameters recombined'


def sparse(rng, rec, s):
    s.opts['storage'] = gen.choice(rng, ['csr', 'csr', 'csc'])
    return 'sparse storage'


def sparse_linalg(rng, rec, s):
    if smallest([ev.dense(v) for v in s.H.values()]) < 1e-3 or s.H.shape[0] < 2:
        return None
    s.opts['sparse_linalg'] = True
    return 'sparse linear algebra'


def bloch(rng, rec, s):
    if s.kind != 'bloch':
        return None
    s.opts['bloch'] = gen.choice(rng, ['BlochModel', 'BlochModel', 'back'])
    return 'BlochModel'


def rename(rng, rec, s, names=None):
    old = list(s.H.momenta)
    if not old:
        return None
    if rng.random() < .5 and len(old) > 1:
        i = rng.permutation(len(old))
        new = [old[j] for j in i]
        what = 'exchanged momentum names'
    else:
        names = gen.choice(rng, [('q_1', 'q_2', 'q_3', 'q_4'), ('z', 'y', 'x', 'w'), ('p', 'k_x', 'q', 'r'),
                                 ('k_y', 'k_z', 'k_x', 'k_w')])
        new = [gen.sym(x) for x in names[:len(old)]]
        what = 'renamed momenta'
    out = {expandk(k.subs(dict(zip(old, new)), simultaneous=True)): v for k, v in s.H.items()}
    import qsymm
    s.H = qsymm.Model(out, momenta=tuple(str(x) for x in new))
    return what


def cand(rng, rec, s):
    s.C = [s.C[i] for i in rng.permutation(len(s.C))]
    s.opts['container'] = gen.choice(rng, [list, tuple, set, frozenset])
    return 'candidate order'


def shift(rng, rec, s):
    s.H = s.H + model({gen.sym('E_0'): np.eye(s.H.shape[0]) * rng.uniform(.5, 2)}, s.H)
    s.ops = [x for x in s.ops if not x[2]]
    return 'shifted by identity'


def unit(rng, rec, s):
    f = float(rng.choice([-1, 1]) * rng.uniform(.3, 3))
    s.H = model({k: v * f for k, v in s.H.items()}, s.H)
    return 'energy unit'


def rotated(rng, rec, s):
    import qsymm
    dim = len(s.H.momenta)
    if dim < 1:
        return None
    if s.kind == 'poly' and rng.random() < .5 and dim > 1 and s.rk != 'sympy':
        if dim == 2:
            O = gen.rot2(rng.uniform(.2, .55) + np.pi / 2 * rng.integers(4)) @ np.diag([1, rng.choice([-1, 1])])
        else:
            O = gen.orthogonal(rng, dim)
        if np.min(np.abs(O)) < .03:
            return None
        if any(max(sympy.Poly(k, *s.H.momenta).degree_list()) > 3 for k in s.H):
            return None
        exact = False
        # orthogonal transformations only give orthogonal operations from orthogonal ones, anything is allowed
        C2 = [qsymm.PointGroupElement(O.T @ ev.Rfloat(g.R).reshape(dim, dim) @ O, g.conjugate, g.antisymmetry) for g in s.C]
        s.rk = 'float'
    else:
        exact = True
        O = np.eye(dim, dtype=int)[rng.permutation(dim)] @ np.diag(rng.choice([-1, 1], dim))
        if s.kind == 'bloch' and s.rk == 'int' and rng.random() < .4 and dim > 1:
            O = gen.unimodular(rng, dim, steps=2, size=1)
        Oi = np.rint(np.linalg.inv(O)).astype(int)
        C2 = []
        for g in s.C:
            R = g.R
            if isinstance(R, sympy.MatrixBase):
                R = sympy.ImmutableMatrix(sympy.Matrix(Oi) * sympy.Matrix(R) * sympy.Matrix(O))
            else:
                R = Oi @ np.array(R).reshape(dim, dim) @ O
            C2.append(qsymm.PointGroupElement(R, g.conjugate, g.antisymmetry))
    # H'(k) = H(O k)
    k = sympy.Matrix([sympy.Symbol(x.name) for x in s.H.momenta])
    s.H = s.H.rotate_momenta(O)
    s.C = C2
    Oinv = np.linalg.inv(O.astype(float))
    s.ops = [(Oinv @ R @ O, c, a) for R, c, a in s.ops]
    if s.kind == 'poly':
        from .p15 import so
        s.rot = [coords(Oinv @ sum(x * A for x, A in zip(v, so(dim))) @ O, dim) for v in s.rot]
    return 'rotated coordinates'


TRANS = [basis, basis, reorder, rescale, rescale, recombine, sparse, sparse_linalg, bloch, bloch, rename, rename, cand, shift, unit,
         rotated, rotated]


def reference(rec, s):
    d, c = result(s.H, s.C, rotations=s.kind == 'poly')
    s.ops, s.n_on, s.rot = summarize(rec, d, c, len(s.H.momenta))


def compare(rng, rec, s, what):
    import qsymm
    H, C, kw = s.H, list(s.C), {}
    o = s.opts
    if o.get('bloch'):
        H = qsymm.BlochModel(H)
        if o['bloch'] == 'back':
            H = H.tomodel(nsimplify=s.rk == 'sympy')
            # unexpanded exponents are not brought to a normal form
            H = qsymm.Model({expandk(k): v for k, v in H.items()}, momenta=H.momenta)
    if o.get('storage') == 'csr':
        H = H.tocsr()
    elif o.get('storage') == 'csc':
        import scipy.sparse as sp
        H = type(H)({k: sp.csc_matrix(v) for k, v in H.items()}, momenta=H.momenta)
    if o.get('sparse_linalg'):
        kw['sparse_linalg'] = True
    if o.get('container'):
        C = o['container'](C)
    rec.note(what=what, H2=repr(dict(H)), momenta=H.momenta, C2=repr(C), kw=kw)
    d, c = result(H, C, rotations=s.kind == 'poly', **kw)
    ops, n_on, rot = summarize(rec, d, c, len(H.momenta))
    rec.check(same_set(ops, s.ops), 'discrete symmetries do not depend on: ' + ', '.join(what),
              got=ops, want=s.ops)
    rec.check(n_on == s.n_on, 'number of conserved quantities does not depend on: ' + ', '.join(what), got=n_on, want=s.n_on)
    rec.check(len(rot) == len(s.rot), 'number of continuous symmetries does not depend on: ' + ', '.join(what),
              got=len(rot), want=len(s.rot))
    if rot:
        both = np.array([v / np.linalg.norm(v) for v in rot + s.rot])
        sv = np.linalg.svd(both, compute_uv=False)
        rec.check(int(np.sum(sv > 1e-4)) == len(rot), 'span of the rotations does not depend on: ' + ', '.join(what), s=sv)
    for w in what:
        rec.event(w)
    rec.sig(s.desc, len(ops), n_on, len(rot), tuple(what))


def drive(rng, rec, H, C, desc, kind, rk, nvar):
    if symm.commutant_dim([ev.dense(v) for v in H.values()] + [ev.dense(v).conj().T for v in H.values()]) > 20:
        rec.skip('commutant too large')
    base = State(H, C, None, None, None, kind, rk)
    rec.note(H=repr(dict(H)), C=[repr(g) for g in C], desc=desc)
    base.desc = desc
    reference(rec, base)
    if len(base.ops) > 1:
        rec.event('nontrivial symmetries')
    if base.n_on:
        rec.event('conserved quantities')
    if base.rot:
        rec.event('continuous rotations')
    for _ in range(nvar):
        s = State(H, C, base.ops, base.n_on, base.rot, kind, rk)
        s.desc = desc
        what = []
        n = int(gen.choice(rng, [1, 1, 2, 3, 4]))
        order = [TRANS[i] for i in rng.permutation(len(TRANS))]
        seen = set()
        for t in order:
            if t in seen:
                continue
            seen.add(t)
            if t is recombine and what:
                continue
            w = t(rng, rec, s)
            if w:
                what.append(w)
            if len(what) == n:
                break
        if len(what) > 1:
            rec.event('composition')
        compare(rng, rec, s, what)


def discrete(rng, rec):
    H, C, desc = symm.system(rng, rec, nmax=6)
    drive(rng, rec, H, C, desc, desc[1], desc[2], 3)


def magnitudes(rng, rec):
    """Parameters of very different magnitude."""
    H, C, desc = symm.system(rng, rec, nmax=6)
    base = State(H, C, None, None, None, desc[1], desc[2])
    if not rescale(rng, rec, base, True):
        rec.skip('no room for another magnitude')
    rec.note(H=repr(dict(H)), C=[repr(g) for g in C], desc=desc)
    base.H, scaled = H, base.H
    base.desc = desc
    reference(rec, base)
    base.H = scaled
    compare(rng, rec, base, ['parameters rescaled'])


def rotations(rng, rec):
    """Models with continuous rotations."""
    import qsymm
    if rng.random() < .5:
        mom = symm.MOM[3]
        bl = [isotropic3(rng, mom) for _ in range(int(gen.choice(rng, [1, 1, 2])))]
        bl = [b for b, _ in bl]
    else:
        mom = gen.choice(rng, [symm.MOM[2], symm.MOM[2], symm.MOM[3]])
        bl = [charges2(rng, mom) for _ in range(int(gen.choice(rng, [1, 1, 2])))]
        if any(f for _, f in bl):
            rec.skip('not polynomial')
        bl = [b for b, _ in bl if b]
    if not bl:
        rec.skip('empty model')
    H, d = assemble(rng, rec, bl, 'rotations', rotate=False)
    if H.shape[0] > 6:
        rec.skip('no system of acceptable size')
    rotation_space(rec, H, rng, True)   # inconclusive if not clear cut
    C, gens, rk = symm.candidate_group(rng, len(mom), False, limit=16)
    drive(rng, rec, H, C, d, 'poly', rk, 2)


def onsite(rng, rec):
    """Default candidates."""
    import qsymm
    dim = int(rng.integers(0, 4))
    C = [qsymm.PointGroupElement(np.eye(dim, dtype=int), c, a) for c in (False, True) for a in (False, True)]
    H, C, desc = symm.system(rng, rec, nmax=7, dims=(dim,), cand=(C, C[1:3], 'int'))
    d, c = qsymm.symmetries(H)
    s = State(H, C, None, None, None, desc[1], 'int')
    s.desc = ('onsite',) + desc
    s.ops, s.n_on, s.rot = summarize(rec, d, c, dim)
    for t in (basis, reorder, unit):
        w = t(rng, rec, s)
        rec.event(w)
    d, c = qsymm.symmetries(s.H)
    ops, n_on, _ = summarize(rec, d, c, dim)
    rec.check(same_set(ops, s.ops), 'discrete onsite symmetries do not depend on the basis', got=ops, want=s.ops)
    rec.check(n_on == s.n_on, 'number of conserved quantities does not depend on the basis')
    rec.sig('onsite', desc, len(ops), n_on)


FAMILIES = {
    'discrete': (discrete, 130, 4000),
    'magnitudes': (magnitudes, 120, 3000),
    'rotations': (rotations, 60, 1500),
    'onsite': (onsite, 60, 1000),
}
