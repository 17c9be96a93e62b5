"""P27: symmetry finding and Hamiltonian generation are inverse to each other.

Every execution is a pipeline: symmetries -> family -> symmetries of the generic
member -> family, and model -> symmetries -> family.  The recorded results are
judged by independent linear algebra (values at sample points).
"""
import itertools as it

import numpy as np
import sympy

from .. import ev, gen, symm, fam
from . import p15, p17, p19

RULE = ('states are (direction, dimension, representation, kinds of generators, options, number of members, numbers of discrete and '
        'continuous symmetries found); spans are compared in the space of all allowed terms')
REQUIRED_EVENTS = ('continuum', 'bloch', 'model', 'input operators found', 'additional symmetries', 'no additional symmetries', 'input rotation found',
                   'input conserved quantity found', 'unitary parts differ', 'generators only', 'same span', 'model contained', 'family member sum',
                   'numerical coefficients', 'second round', 'antisymmetry', 'BlochModel')
ASSUMPTIONS = ['parameters are real', 'the lattice operators found do not mix sites (otherwise the family on the lattice is not defined)']


class Quiet:
    def event(self, *a):
        pass

    def skip(self, msg):
        raise symm.Skip(msg)


def real_vec(L):
    return np.concatenate((np.real(L).ravel(), np.imag(L).ravel()))


def in_real_span(rec, X, Ls, msg, tol=1e-6):
    A = np.array([real_vec(L) for L in Ls]).T
    b = real_vec(X)
    x = np.linalg.lstsq(A, b, rcond=1e-10)[0]
    rec.close(A @ x, b, msg, tol=tol, scale=max(1., np.max(np.abs(b))))


def same_action(g, h):
    return g[1] == h[1] and g[2] == h[2] and np.max(np.abs(g[0] - h[0]), initial=0) < 1e-5


def judge_found(rec, ops, disc, cont, n, dim, full, rotations):
    """The input operators are among the symmetries found, up to conserved quantities."""
    cons = [g for g in cont if g.R is None or np.max(np.abs(np.array(g.R).astype(complex)), initial=0) < 1e-12]
    rots = [g for g in cont if not any(g is c for c in cons)]
    basis = [np.eye(n)] + [np.asarray(g.U, complex) for g in cons]
    got = [symm.abstract(g) for g in disc]
    grp = got if full else symm.closure(got + [(np.eye(dim), False, False)])
    for g in ops:
        if not hasattr(g, 'conjugate'):
            L = np.asarray(g.U, complex)
            if g.R is None or np.max(np.abs(np.array(g.R).astype(complex)), initial=0) < 1e-12:
                in_real_span(rec, L, basis, 'input conserved quantity is in the span of the ones found')
                rec.event('input conserved quantity found')
            elif rotations:
                A = [np.concatenate((p15.coords(np.array(r.R).astype(complex).imag, dim), real_vec(np.asarray(r.U)))) for r in rots]
                A += [np.concatenate((np.zeros(dim * (dim - 1) // 2), real_vec(B))) for B in basis]
                b = np.concatenate((p15.coords(np.array(g.R).astype(complex).imag, dim), real_vec(L)))
                A = np.array(A).T
                x = np.linalg.lstsq(A, b, rcond=1e-10)[0]
                rec.close(A @ x, b, 'input rotation is in the span of the ones found', tol=1e-6, scale=max(1., np.max(np.abs(b))))
                rec.event('input rotation found')
            continue
        rec.check(symm.contains(grp, symm.abstract(g)), 'input operator is among the symmetries found', g=repr(g), n_found=len(grp))
        rec.event('input operators found')
        for h in disc:
            if same_action(symm.abstract(g), symm.abstract(h)):
                # U_h^-1 U_g is unitary (no complex conjugation left) and conserved
                V = np.asarray(h.U).conj().T @ np.asarray(g.U) if not g.conjugate else (np.asarray(h.U).conj().T @ np.asarray(g.U)).conj()
                in_real_span(rec, (V + V.conj().T) / 2, basis, 'unitary parts agree up to conserved quantities')
                in_real_span(rec, (V - V.conj().T) / 2j, basis, 'unitary parts agree up to conserved quantities')
                if np.max(np.abs(V - V[0, 0] * np.eye(n))) > 1e-6:
                    rec.event('unitary parts differ')


def compare_span(rec, A, B, what, tol=1e-6):
    rec.check(len(A) == len(B), what + ': number of members', got=len(B), want=len(A))
    if len(A):
        q = np.linalg.qr(A.T)[0]
        fam.same_span(rec, B, q.T, what, tol=tol)


def contained(rec, v, B, what, tol=1e-6):
    """rows of v are in the row span of B"""
    if not len(v):
        return
    if not len(B):
        rec.close(v, np.zeros_like(v), what, tol=tol)
        return
    q = np.linalg.qr(B.T)[0]
    rec.close((v @ q) @ q.T, v, what, tol=tol, scale=max(1., np.max(np.abs(v))))


def gather(rng, rec, F):
    """Member-summed family."""
    import qsymm
    from qsymm import hamiltonian_generator as hg
    u = rng.random()
    rec.event('family member sum')
    if u < .4:
        return hg.hamiltonian_from_family(F, tosympy=False)
    if u < .8:
        return hg.hamiltonian_from_family(F, coeffs=[sympy.Symbol('c_%d' % i, real=True) if False else sympy.Symbol('c_%d' % i) for i in range(len(F))], tosympy=False)
    s = F[0].zeros_like()
    for i, f in enumerate(F):
        s = s + f * gen.sym('w%d' % i)
    return s


def candidates(rng, ops, dim, limit=32):
    """Closed set of operations without unitary parts containing those of the input operators."""
    import qsymm
    pg = [qsymm.PointGroupElement(g.R, g.conjugate, g.antisymmetry) for g in ops if hasattr(g, 'conjugate')]
    one = symm.one_like([g.R for g in pg if isinstance(g.R, sympy.MatrixBase)] or [np.asarray(g.R) for g in pg][:1], dim)
    if not pg:
        pg = [qsymm.PointGroupElement(one, False, False)]
    more = list(pg)
    if rng.random() < .6:
        more.append(qsymm.PointGroupElement(one, True, False))
    if rng.random() < .4:
        more.append(qsymm.PointGroupElement(one, bool(rng.random() < .5), True))
    if rng.random() < .3 and dim:
        more.append(qsymm.PointGroupElement(-one, False, False))
    for c in (more, pg):
        if len(symm.closure([symm.abstract(g) for g in c] + [(np.eye(dim), False, False)])) <= limit:
            G = sorted(qsymm.groups.generate_group(set(c)))
            return [G[i] for i in rng.permutation(len(G))]
    raise symm.Skip('group too large')


def find(rng, rec, H, C, rotations):
    import qsymm
    kw = {}
    generators = bool(rng.random() < .35)
    if rng.random() < .25:
        kw['prettify'] = True
    if rotations:
        kw['continuous_rotations'] = True
    if generators:
        rec.event('generators only')
    disc, cont = qsymm.symmetries(H, gen.choice(rng, [list, tuple, set])(C), generators=generators, **kw)
    return list(disc), list(cont), not generators


def nontrivial(disc):
    return len(disc)


def continuum(rng, rec):
    import qsymm
    dim = int(gen.choice(rng, (0, 1, 1, 2, 2, 2, 3)))
    ops, n, desc = p17.operators(rng, Quiet(), dim, nmax=4)
    total = int(rng.integers(0, {0: 1, 1: 4, 2: 3, 3: 3 if n < 3 else 2}[dim]))
    if dim == 0:
        total = 0
    F = p17.call(rec, qsymm.continuum_hamiltonian, ops, dim, total, prettify=bool(rng.random() < .3))
    if not F:
        rec.skip('empty family')
    if len(F) > 26:
        rec.skip('large family')
    rec.note(ops=repr(ops), dim=dim, total=total)
    rec.event('continuum')
    if any(getattr(g, 'antisymmetry', False) for g in ops):
        rec.event('antisymmetry')
    H = gather(rng, rec, F)
    C = candidates(rng, ops, dim)
    rotations = dim > 1 and bool(rng.random() < .6 or any(not hasattr(g, 'conjugate') and g.R is not None for g in ops))
    disc, cont, full = find(rng, rec, H, C, rotations)
    judge_found(rec, ops, disc, cont, n, dim, full, rotations)
    # the family of the symmetries found
    space = p17.make_space(rng, dim, n, total, None, p17_mom(H))
    A = space.coordinates(rec, F, 'family', tol=1e-6)
    gens = disc + cont
    F2 = p17.call(rec, qsymm.continuum_hamiltonian, [gens[i] for i in rng.permutation(len(gens))], dim, total,
                  prettify=bool(rng.random() < .3)) if gens else None
    if F2 is None:
        rec.skip('no symmetries to generate from')
    B = space.coordinates(rec, F2, 'family of the symmetries found', tol=1e-6)
    want = symm.closure([symm.abstract(g) for g in ops if hasattr(g, 'conjugate')] + [(np.eye(dim), False, False)])
    got = disc if full else symm.closure([symm.abstract(g) for g in disc] + [(np.eye(dim), False, False)])
    extra = len(got) > len(want) or len(cont) > sum(not hasattr(g, 'conjugate') for g in ops)
    rec.event('additional symmetries' if extra else 'no additional symmetries')
    # every member is invariant under what was found for the generic member,
    # and what was found includes the input: the spans agree
    compare_span(rec, A, B, 'family generated from the symmetries found')
    rec.event('same span')
    if rng.random() < .25:
        # once more around
        H2 = gather(rng, rec, F2)
        d2, c2, f2 = find(rng, rec, H2, C, rotations)
        a = symm.closure([symm.abstract(g) for g in disc] + [(np.eye(dim), False, False)])
        b = symm.closure([symm.abstract(g) for g in d2] + [(np.eye(dim), False, False)])
        rec.check(len(a) == len(b) and all(symm.contains(a, x) for x in b), 'the same symmetries are found for the family generated from them',
                  n=(len(a), len(b)))
        rec.check(len(c2) == len(cont), 'the same number of continuous symmetries', n=(len(cont), len(c2)))
        rec.event('second round')
    rec.sig('continuum', desc, dim, n, total, len(F), len(disc), len(cont), full, rotations)


def p17_mom(H):
    return [str(k) for k in H.momenta]


def keeps_sites(U, m):
    """block structure of a permutation of sites"""
    off = np.cumsum([0] + list(m))
    B = np.array([[np.max(np.abs(U[off[i]:off[i + 1], off[j]:off[j + 1]])) > 1e-7 for j in range(len(m))] for i in range(len(m))])
    return np.all(B.sum(axis=0) == 1) and np.all(B.sum(axis=1) == 1)


def bloch(rng, rec):
    import qsymm
    (lat, s, m, off, N, gens, cons, rep), hops, full, heavy = p19.small(rng, rec, gen.choice(rng, [300, 600, 1200]))
    kw = {}
    if rep == 'float' or (not heavy and rng.random() < .3):
        kw['bloch_model'] = True
        rec.event('BlochModel')
    sites = p19.names(rng, lat.n)
    hv, sy, norbs = p19.build(rng, Quiet(), lat, s, m, off, N, gens, cons, rep, hops, kw, sites)
    rec.note(hv=repr(hv), sy=repr(sy), norbs=repr(norbs), kw=kw)
    if not sy:
        rec.skip('no symmetries')
    F = p17.call(rec, qsymm.bloch_family, hv, sy, norbs, **kw)
    if not F or len(F) > 20:
        rec.skip('empty or large family')
    rec.event('bloch')
    H = gather(rng, rec, F)
    C = candidates(rng, sy, lat.d, limit=16)
    disc, cont, whole = find(rng, rec, H, C, False)
    judge_found(rec, sy, disc, cont, N, lat.d, whole, False)
    if not all(keeps_sites(np.asarray(g.U), m) for g in disc) or any(not np.allclose(np.asarray(g.U) * mask(m), np.asarray(g.U), atol=1e-7) for g in cont):
        rec.skip('operators found mix sites')
    momenta = [str(k) for k in F[0].momenta]
    space = p19.make_space(rng, full + [(i, i, np.zeros(lat.d)) for i in range(lat.n)], m, off, N, momenta)
    A = space.coordinates(rec, F, 'family', tol=1e-6)
    hv2 = [(sites[a], sites[b], p19.vector_form(rng, Quiet(), v, rep, kw.get('bloch_model', False))) for a, b, v in full]
    g2 = disc + cont
    F2 = p17.call(rec, qsymm.bloch_family, hv2, [g2[i] for i in rng.permutation(len(g2))], norbs, symmetrize=False, **kw)
    B = space.coordinates(rec, F2, 'family of the symmetries found', tol=1e-6)
    compare_span(rec, A, B, 'Bloch family generated from the symmetries found')
    rec.event('same span')
    rec.sig('bloch', lat.which, rep, tuple(m), len(gens), len(cons), len(hops), len(F), len(disc), len(cont))


def mask(m):
    off = np.cumsum([0] + list(m))
    M = np.zeros((off[-1],) * 2)
    for i in range(len(m)):
        M[off[i]:off[i + 1], off[i]:off[i + 1]] = 1
    return M


def pieces(H):
    """Coefficients of the monomials of parameters, as models of the momenta only."""
    import qsymm
    mom = list(H.momenta)
    out = {}
    for k, v in H.items():
        c, par, dep = sympy.Integer(1), sympy.Integer(1), sympy.Integer(1)
        for f in sympy.Mul.make_args(k):
            if f.free_symbols & set(mom):
                dep *= f
            elif f.free_symbols:
                par *= f
            else:
                c *= f
        d = out.setdefault(par, {})
        d[dep] = d.get(dep, 0) + complex(c) * np.asarray(ev.dense(v))
    return [qsymm.Model(d, momenta=mom) for d in out.values()]


def model(rng, rec):
    """A model is a member of the family of its own symmetries."""
    import qsymm
    if rng.random() < .3:
        mom = gen.choice(rng, [symm.MOM[2], symm.MOM[3]])
        if len(mom) == 3:
            bl = [p15.isotropic3(rng, mom)[0]]
        else:
            bl = [p15.charges2(rng, mom)[0]]
        H, d = p15.assemble(rng, Quiet(), bl, 'rot', rotate=False)
        dim = len(mom)
        C = [qsymm.PointGroupElement(np.eye(dim, dtype=int) * a, b, False) for a in (1, -1) for b in (False, True)]
        desc = ('rot',) + tuple(str(x) for x in d)
    else:
        H, C, desc = symm.system(rng, Quiet(), nmax=4, dims=(0, 1, 2, 2, 3), kinds=('poly',))
        dim = desc[0]
    n = H.shape[0]
    if n > 5 or len(C) > 32:
        rec.skip('large')
    deg = max([sympy.Poly(k, *H.momenta).total_degree() for k in H] + [0]) if dim else 0
    if deg > {0: 0, 1: 4, 2: 3, 3: 2}[dim] or (dim == 3 and n > 3 and deg > 1) or (n > 4 and deg > 1):
        rec.skip('high degree')
    numeric = rng.random() < .3
    if numeric:
        # one set of numerical coefficients: fewer constraints, more symmetries
        H = H.subs({p: ev.Point(int(rng.integers(1000)))[str(p)] for k in H for p in k.free_symbols - set(H.momenta)})
        rec.event('numerical coefficients')
        if not len(H.eliminate_zeros()):
            rec.skip('empty')
    rec.note(H=repr(dict(H)), desc=desc)
    rec.event('model')
    disc, cont, full = find(rng, rec, H, C, dim > 1)
    gens = disc + cont
    if not gens:
        rec.skip('no symmetries to generate from')
    F = p17.call(rec, qsymm.continuum_hamiltonian, [gens[i] for i in rng.permutation(len(gens))], dim, list(range(deg + 1)),
                 momenta=[str(k) for k in H.momenta] + ['q%d' % i for i in range(3 - dim)], prettify=bool(rng.random() < .2))
    space = p17.make_space(rng, dim, n, deg, None, p17_mom(H))
    B = space.coordinates(rec, F, 'family of the symmetries found', tol=1e-6)
    P = pieces(H)
    v = space.coordinates(rec, P, 'parts of the model', tol=1e-6)
    contained(rec, v, B, 'model is contained in the family of its symmetries', tol=1e-5)
    rec.event('model contained')
    rec.sig('model', desc, n, deg, numeric, len(F), len(disc), len(cont))


FAMILIES = {
    'continuum': (continuum, 200, 6000),
    'bloch': (bloch, 50, 1500),
    'model': (model, 140, 4000),
}
