"""P15: all continuous rotation symmetries of a model are found."""
import itertools as it

import numpy as np
import scipy.linalg as la
import scipy.sparse as sp
import sympy

from .. import ev, gen, symm
from .p10 import spin
from .p14 import judge_quantities, smallest

RULE = ('states are (workload, dimension, size, number of onsite generators, number of rotation generators, storage, options); '
        'the number of generators follows from the unreduced linear system of all rotations and all matrices, each returned '
        'generator is also exponentiated and applied at finite angles')
REQUIRED_EVENTS = ('full rotation group', 'axial rotation', 'no rotation', 'several blocks', 'conserved quantities',
                   'BlochModel', 'sparse', 'prettified', 'large values', 'num_digits', 'four dimensions', 'non-polynomial', 'low dimension')
ASSUMPTIONS = ['models are Hermitian for real momenta', 'derivatives of the family are taken by a five point formula',
               'families whose singular values are neither clearly zero nor clearly non-zero are inconclusive']

MOM = {2: ('k_x', 'k_y'), 3: ('k_x', 'k_y', 'k_z'), 4: ('k_x', 'k_y', 'k_z', 'k_w')}


def derivative(H, p, A, h=2e-3):
    k = H.momenta
    f = lambda x: ev.mev(H, ev.rotated(p, k, np.eye(len(k)) + x * A))
    return (8 * (f(h) - f(-h)) - (f(2 * h) - f(-2 * h))) / (12 * h)


def so(dim):
    for i, j in it.combinations(range(dim), 2):
        A = np.zeros((dim, dim))
        A[i, j], A[j, i] = 1, -1
        yield A


def rotation_space(rec, H, rng, poly):
    """Basis of the antisymmetric matrices A for which some matrix L exists with
    dH(exp(tA) k)/dt = [L, H]."""
    dim, n = len(H.momenta), H.shape[0]
    pts = symm.sample_points(H, rng, 3 * len(H) + 4, n**2 + dim * (dim - 1) // 2)
    As = list(so(dim))
    one = np.eye(n)
    rows, mats = [], []
    for p in pts:
        M = ev.mev(H, p)
        mats.append(M)
        comm = np.kron(one, M.T) - np.kron(M, one)   # vec(L M - M L), row major
        rot = np.array([derivative(H, p, A).ravel() for A in As]).T
        rows.append(np.hstack((rot, -comm)))
    A = np.vstack(rows)
    ns = symm.ratio_nullspace(A, lo=1e-7, hi=1e-4, floor=max(np.max(np.abs(m)) for m in mats))
    D = symm.commutant_dim(mats)
    R = ns[:, :len(As)]
    N = len(ns) - D
    if N:
        s = np.linalg.svd(R, compute_uv=False)
        rk = int(np.sum(s > 1e-6))
        if rk != N:
            rec.skip('rank of the rotations is not clear cut')
        _, _, vh = np.linalg.svd(R)
        basis = vh[:N].conj()
    else:
        basis = np.zeros((0, len(As)))
    return basis, D, mats, pts


def coords(R, dim):
    return np.array([np.sum(A * R) / 2 for A in so(dim)])


def judge(rec, rng, H, rots, basis, pts, mats, what, tol=1e-6):
    dim, n = len(H.momenta), H.shape[0]
    scale = max(1e-3, max(np.max(np.abs(m)) for m in mats))
    C = []
    for g in rots:
        R = np.array(g.R).astype(complex)
        rec.check(R.shape == (dim, dim), what + ': shape of the spatial part', R=R.shape)
        A = 1j * R
        rec.close(A.imag, np.zeros((dim, dim)), what + ': spatial part generates real rotations', tol=1e-6)
        rec.close(A, -A.T, what + ': spatial part is antisymmetric', tol=1e-6)
        L = np.asarray(g.U, dtype=complex)
        rec.check(L.shape == (n, n), what + ': shape of the unitary part')
        rec.close(L, L.conj().T, what + ': unitary part is Hermitian', tol=1e-6)
        size = max(1., np.max(np.abs(L)), np.max(np.abs(R)))
        if size < 1e3:
            for p, m in list(zip(pts, mats))[:4]:
                lam = float(rng.choice([.4, 1.3, -2.1])) / max(1., size / 3)
                W = la.expm(-1j * lam * L)
                v = W @ ev.mev(H, ev.rotated(p, H.momenta, la.expm(lam * A.real))) @ W.conj().T
                rec.close(v, m, what + ': invariant under finite rotations', tol=tol * 10, scale=10 * scale * size)
        C.append(coords(A.real, dim))
    rec.check(len(rots) == len(basis), what + ': number of rotation generators', got=len(rots), want=len(basis))
    if len(rots):
        C = np.array(C)
        s = np.linalg.svd(C / np.linalg.norm(C, axis=1)[:, None], compute_uv=False)
        rec.check(s[-1] > 1e-6, what + ': spatial parts are linearly independent', s=s)
        res = C - (C @ basis.conj().T) @ basis
        rec.close(res, np.zeros_like(res), what + ': spatial parts span all possible rotations', tol=1e-4, scale=np.max(np.abs(C)))


def examine(rng, rec, H, desc, poly=True):
    import qsymm
    from qsymm import symmetry_finder as sf
    dim, n = len(H.momenta), H.shape[0]
    if rng.random() < .25:
        H = H * float(rng.uniform(100, 3000))
        rec.event('large values')
    basis, D, mats, pts = rotation_space(rec, H, rng, poly)
    rec.event({0: 'no rotation', 1: 'axial rotation'}.get(len(basis), 'partial rotation group'))
    if len(basis) == dim * (dim - 1) // 2 > 1:
        rec.event('full rotation group')
    if D > 1:
        rec.event('conserved quantities')
    kw = dict(prettify=bool(rng.random() < .5))
    tol = 1e-6
    if kw['prettify']:
        rec.event('prettified')
        if rng.random() < .4:
            kw['num_digits'] = int(gen.choice(rng, (5, 6, 9)))
            tol = max(tol, 30 * 10.**-kw['num_digits'])
            rec.event('num_digits')
    H2 = H
    u = rng.random()
    if u < .3:
        H2 = H.tocsr()
        rec.event('sparse')
    if u > .8 and smallest(list(map(ev.dense, H.values()))) > 2e-2:
        kw['sparse_linalg'] = True
        rec.event('sparse')
    rec.note(H=repr(dict(H2)), kw=kw)
    dig = ev.digest(H2)
    one = qsymm.PointGroupElement(np.eye(dim, dtype=int), False, False)
    if rng.random() < .5:
        _, cs = qsymm.symmetries(H2, [one], continuous_rotations=True, **kw)
        cs = list(cs)
        flags = [g.R is None or np.max(np.abs(np.array(g.R).astype(complex))) < 1e-12 for g in cs]
        nons = sum(flags)
        rec.check(flags == sorted(flags, reverse=True), 'onsite conserved quantities are listed first', flags=flags)
        if not (kw['prettify'] and max([0] + [np.max(np.abs(g.U)) for g in cs]) > 1e3):
            judge_quantities(rec, mats, cs[:nons], D, 'onsite part', tol=tol)
            judge(rec, rng, H, cs[nons:], basis, pts, mats, 'symmetries()', tol)
        else:
            rec.check(len(cs) == D - 1 + len(basis), 'number of generators')
        how = 'symmetries'
    else:
        cs = sf.continuous_symmetries(H2, **kw)
        judge(rec, rng, H, cs, basis, pts, mats, 'continuous_symmetries()', tol)
        how = 'continuous_symmetries'
    rec.check(ev.digest(H2) == dig, 'model unchanged')
    rec.sig(desc, dim, n, D, len(basis), how, u < .3, tuple(sorted(kw)))


# -- models with rotation symmetry -------------------------------------------------

def isotropic3(rng, momenta):
    """Terms of k.S, (k.S)^2, k^2 for a sum of spins, plus optional axial fields."""
    import qsymm
    k = [gen.sym(x) for x in momenta]
    S = spin(gen.choice(rng, [0, .5, .5, 1, 1.5]))
    b = len(S[0])
    out = qsymm.Model({}, momenta=momenta, shape=(b, b), format=np.ndarray)

    def add(terms):
        nonlocal out
        for key, v in terms:
            out = out + qsymm.Model({key: v}, momenta=momenta)
    names = iter(rng.permutation(gen.PARAMS))
    par = lambda: gen.sym(str(next(names))) if rng.random() < .8 else sympy.Integer(1)
    p = par()
    for kk in k:
        add([(p * kk**2, np.eye(b))])
    if b > 1 and rng.random() < .8:
        p = par()
        for kk, s in zip(k, S):
            add([(p * kk, s)])
    if b > 2 and rng.random() < .6:
        p = par()
        for i, j in it.product(range(3), repeat=2):
            add([(p * k[i] * k[j], (S[i] @ S[j] + S[j] @ S[i]) / 2)])
    axial = gen.choice(rng, [None, None, 'spin', 'mass', 'cubic', 'quartic'])
    if axial == 'spin' and b > 1:
        add([(par(), S[2])])
    elif axial == 'mass':
        add([(par() * k[2]**2, np.eye(b))])
    elif axial == 'cubic':
        p = par()
        for kk in k:
            add([(p * kk**4, np.eye(b))])
    elif axial == 'quartic':
        p = par()
        for i, j in it.product(range(3), repeat=2):
            add([(p * k[i]**2 * k[j]**2, np.eye(b))])
    return out, axial


def charges2(rng, momenta):
    """Matrix elements k_+^(m_i - m_j) times polynomials of k^2 (and of k_z)."""
    import qsymm
    b = int(rng.integers(1, 4))
    m = sorted(rng.integers(-1, 3, b).tolist())
    kx, ky = [gen.sym(x) for x in momenta[:2]]
    if len(momenta) == 3:
        kz = gen.sym(momenta[2])
        fz = [sympy.Integer(1), kz, kz**2, sympy.cos(kz), gen.e_sym() ** (sympy.I * kz)]
    terms = {}

    def add(expr, M):
        for t in sympy.expand(expr).as_ordered_terms():
            c, r = t.as_coeff_Mul()
            re, im = c.as_real_imag()
            coef = complex(re, im)
            ii = [f for f in sympy.Mul.make_args(r) if f == sympy.I]
            if ii:
                r = r / sympy.I
                coef *= 1j
            terms[r] = terms.get(r, 0) + coef * M
    x, y = sympy.symbols('x_ y_')
    npar = iter(gen.PARAMS)
    used_f = False
    for i in range(b):
        for j in range(i, b):
            if rng.random() < .3 and i != j:
                continue
            d = m[i] - m[j]
            base = (x + (1 if d > 0 else -1) * sympy.I * y) ** abs(d)
            f = base * gen.choice(rng, [1, 1, x**2 + y**2])
            c = rng.normal() + (1j * rng.normal() if i != j else 0)
            M = np.zeros((b, b), complex)
            M[i, j] = c
            par = gen.sym(gen.choice(rng, gen.PARAMS[:4]))
            g = par
            if len(momenta) == 3:
                z = gen.choice(rng, fz)
                used_f = used_f or not z.is_polynomial(kz)
                g = par * z
            if i == j:
                add(sympy.expand(f.subs({x: kx, y: ky}) if hasattr(f, 'subs') else sympy.sympify(f)) * g, M)
                if g.has(gen.e_sym()):
                    add(sympy.expand(sympy.sympify(f).subs({x: kx, y: ky})) * par / z, M)
            else:
                add(sympy.expand(sympy.sympify(f).subs({x: kx, y: ky})) * g, M)
                gc = par / z if g.has(gen.e_sym()) else g
                base = (x - (1 if d > 0 else -1) * sympy.I * y) ** abs(d)
                fc = sympy.sympify(f).subs(sympy.I, -sympy.I)
                add(sympy.expand(fc.subs({x: kx, y: ky})) * gc, M.conj().T)
    return qsymm.Model(terms, momenta=momenta), used_f


def rotated_frame(rng, H):
    dim = len(H.momenta)
    u = rng.random()
    if u < .4:
        return H
    if u < .6 and dim > 1:
        R = np.eye(dim, dtype=int)[rng.permutation(dim)]
    else:
        R = gen.orthogonal(rng, dim)
    return H.rotate_momenta(R)


def assemble(rng, rec, blocks, desc, rotate=True):
    mult = [int(gen.choice(rng, [1, 1, 2])) for _ in blocks]
    n = sum(b.shape[0] * m for b, m in zip(blocks, mult))
    if n > 8:
        mult = [1] * len(blocks)
        n = sum(b.shape[0] for b in blocks)
    if n > 9:
        rec.skip('no system of acceptable size')
    H = symm.direct_sum(blocks, mult, symm.basis_change(rng, n))
    if len(blocks) > 1:
        rec.event('several blocks')
    if rotate:
        H = rotated_frame(rng, H)
    return H, (desc, tuple(b.shape[0] for b in blocks), tuple(mult))


def isotropic(rng, rec):
    mom = MOM[3] if rng.random() < .7 else ('k_z', 'k_x', 'k_y')
    bl = [isotropic3(rng, mom) for _ in range(int(gen.choice(rng, [1, 1, 2, 2])))]
    H, d = assemble(rng, rec, [b for b, _ in bl], 'isotropic')
    examine(rng, rec, H, d + (tuple(str(a) for _, a in bl),))


def axial(rng, rec):
    mom = gen.choice(rng, [MOM[2], MOM[2], MOM[3]])
    bl = [charges2(rng, mom) for _ in range(int(gen.choice(rng, [1, 1, 2])))]
    bl = [b for b in bl if b[0]]
    if not bl:
        rec.skip('empty model')
    fun = any(f for _, f in bl)
    if fun:
        rec.event('non-polynomial')
    H, d = assemble(rng, rec, [b for b, _ in bl], 'axial', rotate=not fun)
    examine(rng, rec, H, d + (fun,), poly=not fun)


def generic(rng, rec):
    """Random and point symmetric models: usually no continuous rotation."""
    H, C, desc = symm.system(rng, rec, nmax=6, dims=(2, 3), kinds=('poly', 'poly', 'poly', 'bloch'))
    if desc[1] == 'bloch':
        rec.event('non-polynomial')
    examine(rng, rec, H, ('generic',) + desc, poly=desc[1] == 'poly')


def dirac(rng, rec):
    """Four dimensions: six generators or a subgroup."""
    import qsymm
    s = [np.eye(2), np.array([[0, 1], [1, 0]]), np.array([[0, -1j], [1j, 0]]), np.diag([1, -1])]
    G = [np.kron(s[1], s[1]), np.kron(s[1], s[2]), np.kron(s[1], s[3]), np.kron(s[2], s[0]), np.kron(s[3], s[0])]
    k = [gen.sym(x) for x in MOM[4]]
    terms = {}
    use = gen.choice(rng, [4, 4, 3, 2])
    for i in range(4):
        key = k[i] if i < use else k[i]**2
        terms[gen.sym('v' if i < use else 'w') * key] = G[i if i < use else 4]
    if rng.random() < .6:
        terms[gen.sym('m')] = G[4]
    H = qsymm.Model(terms, momenta=MOM[4])
    H, d = assemble(rng, rec, [H], 'dirac')
    rec.event('four dimensions')
    examine(rng, rec, H, d + (use,))


def none(rng, rec):
    """BlochModels and low dimensions have no continuous rotations."""
    import qsymm
    from qsymm import symmetry_finder as sf
    dim = int(rng.integers(0, 4))
    if dim >= 2 or rng.random() < .3:
        dim = max(dim, 1)
        H, C, desc = symm.system(rng, rec, nmax=6, dims=(dim,), kinds=('bloch',))
        H = qsymm.BlochModel(H)
        rec.event('BlochModel')
    else:
        H, C, desc = symm.system(rng, rec, nmax=6, dims=(dim,))
        rec.event('low dimension')
    rec.note(H=repr(dict(H)))
    one = qsymm.PointGroupElement(np.eye(dim, dtype=int), False, False)
    rec.check(list(sf.continuous_symmetries(H)) == [], 'no continuous rotations')
    _, a = qsymm.symmetries(H, [one], continuous_rotations=True)
    _, b = qsymm.symmetries(H, [one], continuous_rotations=False)
    rec.check(len(a) == len(b) and all(g.R is None for g in a), 'only conserved quantities', n=(len(a), len(b)))
    rec.sig('none', desc, len(a))


FAMILIES = {
    'isotropic': (isotropic, 80, 2500),
    'axial': (axial, 160, 3000),
    'generic': (generic, 100, 2000),
    'dirac': (dirac, 24, 300),
    'none': (none, 40, 1000),
}
