"""P13: the discrete symmetry search returns exactly the symmetries of the model."""
import itertools as it

import numpy as np
import scipy.sparse as sp
import sympy

from .. import ev, gen, symm

RULE = ('states are (dimension, kind of momentum dependence, representation of the rotations, number of candidates, sector '
        'sizes, multiplicities, number of symmetries found, call variant); every candidate is decided independently by the '
        'null space of the intertwiner equations of the sampled family')
REQUIRED_EVENTS = ('candidate is a symmetry', 'candidate is no symmetry', 'sectors exchanged by an operation',
                   'degenerate sectors', 'generators only', 'sparse', 'default candidates', 'antisymmetry found',
                   'BlochModel', 'not an involution', 'all candidates are symmetries')
ASSUMPTIONS = ['parameters and momenta are real', 'values of the model are Hermitian matrices or come in Hermitian pairs',
               'families whose singular values are neither clearly zero nor clearly non-zero are inconclusive']


def judge(rec, rng, H, C, found, generators, desc, T=None):
    """Compare the result of the search with the independent decision."""
    T = T or symm.Tester(H, rng)
    want = []
    for g in C:
        x = T.exists(g)
        rec.event('candidate is a symmetry' if x else 'candidate is no symmetry')
        if x and not (g * g == g.identity()):
            rec.event('not an involution')
        if x:
            want.append(symm.abstract(g))
    dim = len(H.momenta)
    want = symm.closure(want + [(np.eye(dim), False, False)])
    got = [symm.abstract(g) for g in found]
    for g in found:
        rec.check(g.U is not None, 'symmetries have a unitary part', g=repr(g))
        rec.check(symm.contains(want, symm.abstract(g)), 'returned operator is a symmetry (independent decision)', g=repr(g))
        T.holds(rec, g, 'returned symmetry')
        if g.antisymmetry:
            rec.event('antisymmetry found')
    full = symm.closure(got + [(np.eye(dim), False, False)])
    missed = [w for w in want if not symm.contains(full, w)]
    rec.check(not missed, 'no symmetry is missed', missed=missed[:4], n_found=len(full), n_expected=len(want))
    rec.check(len(full) == len(want), 'number of symmetries', got=len(full), want=len(want))
    if not generators:
        rec.check(len(got) == len(want), 'all elements of the group are returned once', got=len(got), want=len(want))
        # closed under multiplication, with products that are symmetries too
        for _ in range(3):
            g, h = found[int(rng.integers(len(found)))], found[int(rng.integers(len(found)))]
            rec.check(symm.contains(got, symm.abstract(g * h)) and symm.contains(got, symm.abstract(g.inv())),
                      'result is a group')
            T.holds(rec, g * h, 'product of returned symmetries')
    return len(want)


def variant(rng, rec, H):
    """Storage and options."""
    kw = {}
    if rng.random() < .25:
        H2 = H.tocsr()
        rec.event('sparse')
    else:
        H2 = H
    if rng.random() < .15 and H.shape[0] > 3:
        kw['sparse_linalg'] = True
    if rng.random() < .25:
        kw['prettify'] = True
    if rng.random() < .2:
        kw['continuous_rotations'] = True
    return H2, kw


def search(rec, rng, H, C, desc):
    import qsymm
    generators = bool(rng.random() < .25)
    H2, kw = variant(rng, rec, H)
    if kw.get('continuous_rotations') and desc[1] != 'poly':
        del kw['continuous_rotations']
    how = gen.choice(rng, ['list', 'set', 'tuple', 'discrete'])
    rec.note(H=repr(dict(H2)), C=[repr(g) for g in C], generators=generators, kw=kw, how=how, desc=desc)
    try:
        if how == 'discrete':
            r, _ = qsymm.symmetry_finder.discrete_symmetries(H2, set(C), generators=generators,
                                                             sparse_linalg=kw.get('sparse_linalg', False))
            r = list(r)
        else:
            arg = {'list': list, 'set': set, 'tuple': tuple}[how](C)
            r, _ = qsymm.symmetries(H2, arg, generators=generators, **kw)
    except ValueError as ex:
        if 'dimensional null space' in str(ex):
            rec.skip('null space too large for sparse linear algebra (documented error)')
        raise
    except sp.linalg.ArpackNoConvergence:
        rec.skip('sparse eigensolver did not converge (reported by an exception)')
    if generators:
        rec.event('generators only')
    return r, generators, (how, generators, tuple(sorted(kw)), H2 is not H)


def planted(rng, rec):
    H, C, desc = symm.system(rng, rec, nmax=8)
    r, generators, v = search(rec, rng, H, C, desc)
    if max(desc[5]) > 1:
        rec.event('degenerate sectors')
    n = judge(rec, rng, H, C, r, generators, desc)
    rec.sig('planted', desc, n, v)


def large(rng, rec):
    """More candidates, larger sectors."""
    dim = int(rng.choice([2, 3]))
    H, C, desc = symm.system(rng, rec, nmax=12, dims=(dim,))
    r, generators, v = search(rec, rng, H, C, desc)
    n = judge(rec, rng, H, C, r, generators, desc)
    rec.sig('large', desc, n, v)


def predefined(rng, rec):
    """All elements of the predefined groups as candidates, models with nearly all or only a part of the symmetries."""
    import qsymm
    from qsymm import groups
    which = gen.choice(rng, ['cubic', 'cubic', 'hexagonal', 'hexagonal', 'square', 'hexagonal 2d'])
    ph, tr = bool(rng.random() < .8), bool(rng.random() < .8)
    make = {'cubic': groups.cubic, 'hexagonal': lambda **kw: groups.hexagonal(dim=3, **kw), 'square': groups.square,
            'hexagonal 2d': lambda **kw: groups.hexagonal(dim=2, **kw)}[which]
    dim = 3 if which in ('cubic', 'hexagonal') else 2
    C = sorted(make(tr=tr, ph=ph))
    k = [gen.sym(x) for x in symm.MOM[dim]]
    if rng.random() < .5:
        # (almost) everything is a symmetry
        A = gen.hermitian(rng, 2)
        if rng.random() < .6:
            # energies come in pairs E, -E
            A = A - np.trace(A) / 2 * np.eye(2)
        terms = {(sum(x * x for x in k)) ** int(rng.integers(1, 3)): A}
        if rng.random() < .4:
            terms[gen.sym('m')] = A @ A - np.trace(A @ A) / 2 * np.eye(2) if rng.random() < .5 else A
        H = qsymm.Model(terms, momenta=symm.MOM[dim], normalize=True)
    else:
        # symmetrise a random polynomial with unitary parts equal to one
        sub = [g for g in make(tr=tr, ph=False, generators=True) if rng.random() < .6]
        n = int(rng.integers(1, 3))
        sub = sorted(groups.generate_group({qsymm.PointGroupElement(g.R, g.conjugate, False, np.eye(n)) for g in sub})) if sub else []
        h = {}
        for _ in range(2):
            h[sympy.Mul(*[k[int(rng.integers(dim))] for _ in range(int(rng.integers(1, 4)))])] = gen.hermitian(rng, n)
        H = qsymm.Model(h, momenta=symm.MOM[dim])
        if sub:
            H = sum((g.apply(H) for g in sub), H.zeros_like()) * (1 / len(sub))
    scale = max([np.max(np.abs(v)) for v in H.values()] + [0.])
    H = qsymm.Model({q: v for q, v in H.items() if np.max(np.abs(v)) > 1e-7 * scale}, momenta=H.momenta, shape=H.shape, format=np.ndarray)
    if scale < 1e-3 or not H:
        raise symm.Skip('empty model')
    desc = (dim, 'poly', which, len(C), (H.shape[0],), (1,))
    r, generators, v = search(rec, rng, H, C, desc)
    rec.event('%d candidates' % len(C))
    n = judge(rec, rng, H, C, r, generators, desc)
    if n == len(C):
        rec.event('all candidates are symmetries')
    if n > 96:
        rec.event('more than 96 symmetries')
    rec.sig('predefined', desc, n, v)


def onsite(rng, rec):
    """Default candidates, families without or with momenta."""
    import qsymm
    from qsymm import time_reversal, particle_hole, chiral
    dim = int(rng.integers(0, 4))
    C = [qsymm.PointGroupElement(np.eye(dim, dtype=int), c, a) for c in (False, True) for a in (False, True)]
    H, C, desc = symm.system(rng, rec, nmax=8, dims=(dim,), cand=(C, C[1:3], 'int'))
    rec.note(H=repr(dict(H)), desc=desc)
    H2 = H.tocsr() if rng.random() < .2 else H
    r, c = qsymm.symmetries(H2) if rng.random() < .5 else qsymm.symmetries(H2, None, prettify=True)
    rec.event('default candidates')
    n = judge(rec, rng, H, C, r, False, desc)
    rec.sig('onsite', desc, n)


def bloch(rng, rec):
    """BlochModels, with lattice, exact and floating point rotations."""
    import qsymm
    from qsymm import hamiltonian_generator as hg
    which = gen.choice(rng, ['hex float', 'hex exact', 'square', 'square', 'chain'])
    one = np.eye(2)
    if which.startswith('hex'):
        exact = which == 'hex exact'
        f = (lambda M: sympy.ImmutableMatrix(M)) if exact else (lambda M: np.array(M, float))
        gens = [qsymm.PointGroupElement(symm.exact2(6) if exact else gen.rot2(np.pi / 3), False, False),
                qsymm.PointGroupElement(f([[1, 0], [0, -1]]), False, False)]
        gens = gens[:int(rng.integers(1, 3))]
        one = sympy.ImmutableMatrix(sympy.eye(2)) if exact else np.eye(2)
        star = [(sympy.Integer(0), 1 / sympy.sqrt(3)) if exact else (0., 1 / np.sqrt(3)),
                (sympy.Integer(1), sympy.Integer(0)) if exact else (1., 0.)]
    elif which == 'square':
        gens = [qsymm.PointGroupElement(np.array([[0, -1], [1, 0]]), False, False)]
        if rng.random() < .5:
            gens.append(qsymm.PointGroupElement(np.diag([-1, 1]), False, False))
        one = np.eye(2, dtype=int)
        star = [(1, 0), (1, 1), (sympy.Rational(1, 2), sympy.Rational(1, 2))]
    else:
        gens = [qsymm.PointGroupElement(-np.eye(1, dtype=int), False, False)]
        one = np.eye(1, dtype=int)
        star = [(1,), (sympy.Rational(1, 3),)]
    gens.append(qsymm.PointGroupElement(one, True, False))
    if rng.random() < .5:
        gens.append(qsymm.PointGroupElement(one, False, True))
    C = sorted(qsymm.groups.generate_group(set(gens)))
    dim = len(star[0])
    n = int(rng.integers(1, 4))
    H = qsymm.Model({}, momenta=symm.MOM[dim], shape=(n, n), format=np.ndarray)
    for _ in range(int(rng.integers(1, 3))):
        v = star[int(rng.integers(len(star)))]
        R = C[int(rng.integers(len(C)))].R
        vec = np.array(R).astype(object) @ np.array(v, dtype=object) if which != 'hex float' else np.array(R) @ np.array(v, float)
        f = gen.e_sym() ** sympy.expand(sympy.I * sum(sympy.sympify(x) * gen.sym(k) for x, k in zip(vec, symm.MOM[dim])))
        M = rng.normal(size=(n, n)) + 1j * rng.normal(size=(n, n)) * (rng.random() < .6)
        t = qsymm.Model({gen.sym(gen.choice(rng, ['t', 'u'])) * f: M}, momenta=symm.MOM[dim])
        H = H + t + t.T().conj()
    # symmetrise under part of the operations in a permutation-like representation
    if rng.random() < .8:
        sub = [g for g in gens if rng.random() < .7]
        sub = sorted(qsymm.groups.generate_group(set(sub))) if sub else []
        H = qsymm.BlochModel(H) if which == 'hex float' else H
        if sub:
            us = [qsymm.PointGroupElement(g.R, g.conjugate, g.antisymmetry, np.eye(n)) for g in sub]
            H = sum((g.apply(H) for g in us), H.zeros_like())
            if rng.random() < .5:
                W = gen.unitary(rng, n)
                H = W @ H @ W.conj().T
    if not H.eliminate_zeros():
        rec.skip('empty model')
    if which == 'hex float' or rng.random() < .6:
        H = qsymm.BlochModel(H)
        rec.event('BlochModel')
    r, generators, v = search(rec, rng, H, C, (which, 'bloch'))
    k = judge(rec, rng, H, C, r, generators, None)
    rec.sig('bloch', which, n, len(C), k, v)


def not_closed(rng, rec):
    """Candidates that do not form a group: the result is generated by the symmetries among them."""
    H, C, desc = symm.system(rng, rec, nmax=6)
    sub = [g for g in C if rng.random() < .6] or C[:1]
    r, generators, v = search(rec, rng, H, sub, desc)
    n = judge(rec, rng, H, sub, r, generators, desc)
    rec.sig('not closed', desc, n, v)


FAMILIES = {
    'planted': (planted, 170, 5000),
    'large': (large, 26, 900),
    'predefined': (predefined, 24, 800),
    'onsite': (onsite, 140, 3000),
    'bloch': (bloch, 80, 2000),
    'not closed': (not_closed, 60, 1200),
}
