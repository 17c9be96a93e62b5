"""P19: generated Bloch families are the symmetric tight-binding models."""
from collections import OrderedDict

import numpy as np
import scipy.linalg as la
import sympy

from .. import ev, gen, symm, fam
from .p10 import spin, spin_rep
from .p12 import lattice, image, names

RULE = ('states are (lattice, spins of the orbits, operators, hoppings, options, number of members); the span is compared with '
        'the null space of the invariance conditions in the space of all matrices on the given hoppings and their images')
REQUIRED_EVENTS = ('members', 'symmetrized', 'constrained', 'Model', 'BlochModel', 'onsite terms', 'no onsite terms', 'prettified',
                   'antiunitary', 'antisymmetry', 'conserved quantity', 'unequal orbital numbers', 'equal spans', 'exact vectors',
                   'incomplete hoppings', 'duplicated hoppings', 'other momenta', 'symbolic vectors', 'rejected', 'no point group')
ASSUMPTIONS = ['unitary parts map sites onto sites with equal orbital numbers', 'conserved quantities do not mix sites',
               'hopping vectors are r_b - r_a']


def exact(x):
    x = np.asarray(x, float)
    f = np.vectorize(lambda y: sympy.nsimplify(y, [sympy.sqrt(3)], tolerance=1e-10), otypes=[object])
    return f(np.round(x, 12)) if x.size else x.astype(object)


class Lattice:
    def __init__(self, rng):
        while True:
            which, L, ops, pos = lattice(rng)
            if which in ('molecule3', 'molecule cube') or len(pos) > 4:
                continue
            break
        if which == 'chain':
            pos = np.round(pos, 1)
        if which == 'glide':
            pos = np.array([[.1, .15], [.6, -.15], [-.1, -.15], [.4, .15]])
        if which == 'honeycomb':
            # exact orientation with simple coordinates
            pass
        self.which, self.L, self.pos = which, L, pos
        self.d, self.n = pos.shape[1], len(pos)
        pick = [ops[i] for i in rng.permutation(len(ops))[:int(gen.choice(rng, [0, 1, 1, 2, 2, 3]))]]
        self.ops = pick
        self.perms = [[image(L, pos, R @ p + t) for p in pos] for R, t in pick]
        # orbits of sites
        orb = list(range(self.n))
        for p in self.perms:
            for i in range(self.n):
                a, b = orb[i], orb[p[i]]
                orb = [a if x == b else x for x in orb]
        self.orbit = [sorted(set(orb)).index(x) for x in orb]


def setup(rng, rec, float_ok=True):
    """Lattice with operators.  -> dict"""
    import qsymm
    lat = Lattice(rng)
    d, n = lat.d, lat.n
    sp_ = [gen.choice(rng, [0, 0, .5, .5, 1] if n < 3 else [0, 0, 0, .5]) for _ in range(max(lat.orbit) + 1)]
    if rng.random() < .6:
        sp_ = [sp_[0]] * len(sp_)
    s = [sp_[o] for o in lat.orbit]
    m = [int(2 * x + 1) for x in s]
    if len(set(m)) > 1:
        rec.event('unequal orbital numbers')
    off = np.cumsum([0] + m)
    N = int(off[-1])
    T = [la.expm(-1j * np.pi * spin(x)[1]) if x else np.eye(1) for x in s]
    isint = all(np.allclose(R, np.round(R)) for R, _ in lat.ops)
    rep = 'int' if isint else gen.choice(rng, ['sympy', 'float'] if float_ok else ['sympy'])
    form = {'int': lambda R: np.round(R).astype(int), 'float': lambda R: np.array(R, float),
            'sympy': lambda R: sympy.ImmutableMatrix(exact(R)) if d > 1 else np.round(R).astype(int)}[rep]
    gens = []
    chars = rng.choice([1, -1], len(sp_))

    def add(R, idx, c, a, onsite):
        U = np.zeros((N, N), complex)
        for i in range(n):
            j = idx[i]
            U[off[j]:off[j + 1], off[i]:off[i + 1]] = onsite[i]
        gens.append((qsymm.PointGroupElement(form(R), c, a, U), idx))
    for (R, t), idx in zip(lat.ops, lat.perms):
        c = bool(rng.random() < .15)
        act = []
        for i in range(n):
            A = spin_rep(R, s[i]) if s[i] else np.eye(1)
            if np.linalg.det(R) < 0 and s[i] == 0:
                A = A * chars[lat.orbit[i]]
            act.append(A @ T[i] if c else A)
        add(R, idx, c, False, act)
    one, same = np.eye(d), list(range(n))
    if rng.random() < .5:
        add(one, same, True, False, T)
        rec.event('antiunitary')
    u = rng.random()
    if u < .15:
        sg = rng.choice([1, -1], n)
        add(one, same, False, True, [sg[i] * np.eye(m[i]) for i in range(n)])
        rec.event('antisymmetry')
    elif u < .25:
        add(one, same, True, True, [np.eye(m[i]) for i in range(n)])
        rec.event('antisymmetry')
    gens = [gens[i] for i in rng.permutation(len(gens))]
    cons = []
    if rng.random() < .2:
        Ls = []
        kind = gen.choice(rng, ['Sz', 'number', 'Sx'])
        for i in range(n):
            Ls.append({'Sz': spin(s[i])[2] if s[i] else np.zeros((1, 1)), 'Sx': spin(s[i])[0] if s[i] else np.zeros((1, 1)),
                       'number': np.eye(m[i]) * float(lat.orbit[i])}[kind])
        cons = [qsymm.ContinuousGroupGenerator(None, la.block_diag(*Ls).astype(complex))]
        rec.event('conserved quantity')
    return lat, s, m, off, N, gens, cons, rep


def hoppings(rng, lat):
    out = []
    for _ in range(int(gen.choice(rng, [1, 1, 1, 2, 2, 3]))):
        a, b = int(rng.integers(lat.n)), int(rng.integers(lat.n))
        best = None
        for _ in range(3):
            v = lat.pos[b] - lat.pos[a] + rng.integers(-1, 2, lat.d) @ lat.L
            if best is None or np.linalg.norm(v) < np.linalg.norm(best):
                best = v
        out.append((a, b, best))
    return out


def vkey(v):
    return tuple(np.round(np.asarray(v, float), 6) + 0.)


def canonical(a, b, v):
    x, y = (a, b) + vkey(v), (b, a) + vkey(-np.asarray(v))
    return min(x, y)


def orbit(hops, gens, lat):
    """All images of the hoppings under the group, up to Hermitian conjugation."""
    out = {canonical(*h): h for h in hops}
    front = list(out.values())
    Rs = [(ev.Rfloat(g.R), idx) for g, idx in gens]
    while front:
        new = []
        for a, b, v in front:
            for R, idx in Rs:
                h = (idx[a], idx[b], R @ v)
                k = canonical(*h)
                if k not in out:
                    out[k] = h
                    new.append(h)
        front = new
        if len(out) > 400:
            raise symm.Skip('too many hoppings')
    return list(out.values())


def make_space(rng, hops, m, off, N, momenta):
    waves = {}

    def wave(v):
        k = vkey(v)
        if k not in waves:
            waves[k] = fam.Wave(v)
        return waves[k]
    els = []
    for a, b, v in {canonical(*h): h for h in hops}.values():
        v = np.asarray(v, float)
        if a == b and np.allclose(v, 0):
            for h in fam.herm_basis(m[a]):
                M = np.zeros((N, N), complex)
                M[off[a]:off[a + 1], off[a]:off[a + 1]] = h
                els.append([(wave(v), M)])
            continue
        for i in range(m[a]):
            for j in range(m[b]):
                for c in (1, 1j):
                    M = np.zeros((N, N), complex)
                    M[off[a] + i, off[b] + j] = c * np.sqrt(.5)
                    els.append([(wave(v), M), (wave(-v), M.conj().T)])
    return fam.Space(els, momenta, N, rng)


def vector_form(rng, rec, v, rep, bm):
    """The hopping vector as the user may write it."""
    if rep == 'sympy' or not bm:
        x = exact(v)
        rec.event('exact vectors')
        kind = gen.choice(rng, ['list', 'tuple', 'array', 'Matrix'])
        if all(y.is_Integer for y in x) and rng.random() < .5:
            return [int(y) for y in x]
        if kind == 'Matrix' and not bm:
            return [y for y in sympy.Matrix(list(x))]
        return {'list': list, 'tuple': tuple, 'array': np.array, 'Matrix': tuple}[kind](x)
    return gen.choice(rng, [list, tuple, np.array])([float(y) for y in v])


def build(rng, rec, lat, s, m, off, N, gens, cons, rep, hops, kw, sites):
    """Arguments of bloch_family."""
    bm = kw.get('bloch_model', False)
    hv = [(sites[a], sites[b], vector_form(rng, rec, v, rep, bm)) for a, b, v in hops]
    norbs = [(sites[i], m[i]) for i in range(lat.n)]
    norbs = gen.choice(rng, [tuple, list, OrderedDict])(norbs)
    sy = [g for g, _ in gens] + cons
    return hv, [sy[i] for i in rng.permutation(len(sy))], norbs


def judge(rec, rng, F, space, gens, cons, cls, momenta, what, tol=1e-6):
    N = space.invariant([fam.as_op(g) for g, _ in gens] + [fam.as_op(g) for g in cons])
    for x in F:
        rec.check(type(x) is cls, what + ': type of the members', got=type(x))
        rec.check([str(k) for k in x.momenta] == list(momenta), what + ': momenta', got=x.momenta)
    C = space.coordinates(rec, F, what + ': only allowed hoppings', tol=tol)
    fam.same_span(rec, C, N, what, tol=tol)
    for x in F[:3]:
        for p in space.pts[:2]:
            v = ev.mev(x, p)
            rec.close(v, v.conj().T, what + ': Hermitian', tol=tol)
            for g, _ in gens:
                rec.close(ev.apply_oracle(g, x, p), v, what + ': invariant', tol=tol, g=repr(g), scale=max(10., np.max(np.abs(v))))
            for g in cons:
                L = np.asarray(g.U)
                rec.close(L @ v, v @ L, what + ': conserved quantity', tol=tol, scale=max(10., np.max(np.abs(v))))
    return C


def options(rng, rec, rep, d):
    kw = {}
    if rep == 'float':
        kw['bloch_model'] = True
    elif rng.random() < .5:
        kw['bloch_model'] = bool(rng.random() < .6)
    if rng.random() < .3:
        kw['onsites'] = bool(rng.random() < .4)
    if rng.random() < .5:
        kw['prettify'] = bool(rng.random() < .4)
    if rng.random() < .2:
        kw['num_digits'] = int(rng.choice([8, 9, 11]))
    mom = ('k_x', 'k_y', 'k_z')
    if rng.random() < .25:
        mom = gen.choice(rng, [('k_y', 'k_x', 'k_z'), ('p', 'q', 'r'), ('k_z', 'k_x', 'k_y')])
        kw['momenta'] = gen.choice(rng, [tuple, list])(mom if rng.random() < .5 else [sympy.Symbol(x) for x in mom])
        rec.event('other momenta')
    return kw, mom[:d]


def note_options(rec, kw):
    rec.event('BlochModel' if kw.get('bloch_model') else 'Model')
    rec.event('onsite terms' if kw.get('onsites', True) else 'no onsite terms')
    if kw.get('prettify', True):
        rec.event('prettified')


def small(rng, rec, limit, both=False, **kw):
    """Lattice with operators and hoppings that are not too expensive for the library."""
    for _ in range(200):
        r = setup(rng, Silent(), **kw)
        lat, m = r[0], r[2]
        hops = hoppings(rng, lat)
        try:
            full = orbit(hops, r[5], lat)
        except symm.Skip:
            continue
        seeds = sum(2 * m[a] * m[b] for a, b, _ in hops) + sum(2 * x * x for x in m)
        cost = seeds * (len(full) + 2) * order(r[5])
        every = sum(2 * m[a] * m[b] for a, b, _ in full) + sum(2 * x * x for x in m)
        # BlochModels are slow
        heavy = (every * (2 * len(full) + 1)) ** 2 > 60000
        if cost <= limit and not (heavy and (r[7] == 'float' or both)):
            break
    else:
        rec.skip('too expensive')
    if len(set(m)) > 1:
        rec.event('unequal orbital numbers')
    if any(g.conjugate for g, _ in r[5]):
        rec.event('antiunitary')
    if any(g.antisymmetry for g, _ in r[5]):
        rec.event('antisymmetry')
    if r[6]:
        rec.event('conserved quantity')
    return r, hops, full, heavy


def order(gens):
    """Number of distinct elements of the group ignoring the unitary parts."""
    key = lambda x: (tuple(np.round(x[0], 5).ravel() + 0.), x[1], x[2])
    G = [(ev.Rfloat(g.R), g.conjugate, g.antisymmetry) for g, _ in gens]
    seen = {key(x): x for x in G}
    front = G
    while front and len(seen) < 100:
        new = []
        for x in front:
            for g in G:
                y = (x[0] @ g[0], x[1] ^ g[1], x[2] ^ g[2])
                if key(y) not in seen:
                    seen[key(y)] = y
                    new.append(y)
        front = new
    return max(len(seen), 1)


class Silent:
    def event(self, *a):
        pass


def family(rng, rec):
    import qsymm
    (lat, s, m, off, N, gens, cons, rep), hops, full, heavy = small(rng, rec, gen.choice(rng, [600, 1500, 3000, 6000]))
    kw, mom = options(rng, rec, rep, lat.d)
    if heavy:
        kw.pop('bloch_model', None)
    given = list(hops)
    kw['symmetrize'] = symmetrize = bool(rng.random() < .6)
    if symmetrize and rng.random() < .5:
        del kw['symmetrize']
    if not symmetrize and rng.random() < .8:
        # the complete set, in some order and in some direction
        given = [full[i] for i in rng.permutation(len(full))]
        given = [(b, a, -v) if rng.random() < .5 else (a, b, v) for a, b, v in given]
        if len(given) > 14:
            rec.skip('too many hoppings')
    elif not symmetrize and len(full) > len(given):
        rec.event('incomplete hoppings')
    if rng.random() < .25:
        given.append(given[0] if rng.random() < .5 else (given[0][1], given[0][0], -given[0][2]))
        rec.event('duplicated hoppings')
    sites = names(rng, lat.n)
    hv, sy, norbs = build(rng, rec, lat, s, m, off, N, gens, cons, rep, given, kw, sites)
    note_options(rec, kw)
    rec.event('symmetrized' if symmetrize else 'constrained')
    if not gens:
        rec.event('no point group')
    rec.note(lattice=lat.which, pos=lat.pos, spins=s, hops=repr(hv), symmetries=repr(sy), norbs=repr(norbs), kw=repr(kw))
    dig = ev.digest(hv), ev.digest(norbs), [ev.digest(g) for g in sy], ev.digest(kw)
    F = qsymm.bloch_family(hv, sy, norbs, **kw)
    rec.check((ev.digest(hv), ev.digest(norbs), [ev.digest(g) for g in sy], ev.digest(kw)) == dig, 'arguments unchanged')
    allowed = full if symmetrize else given
    if kw.get('onsites', True):
        allowed = allowed + [(i, i, np.zeros(lat.d)) for i in range(lat.n)]
    space = make_space(rng, allowed, m, off, N, mom)
    cls = qsymm.BlochModel if kw.get('bloch_model') else qsymm.Model
    judge(rec, rng, F, space, gens, cons, cls, mom, 'Bloch family')
    rec.event('members', len(F))
    rec.sig(lat.which, tuple(s), len(gens), len(cons), rep, len(given), tuple(sorted((k, str(v)) for k, v in kw.items())), len(F))


def strategies(rng, rec):
    """Symmetrising and constraining a complete set give the same span, in both formats."""
    import qsymm
    (lat, s, m, off, N, gens, cons, rep), hops, full, _ = small(rng, rec, 1000, both=True, float_ok=False)
    sites = names(rng, lat.n)
    rec.note(lattice=lat.which, pos=lat.pos, spins=s, hops=repr(hops), symmetries=repr([g for g, _ in gens] + cons))
    results = []
    space = make_space(rng, full + [(i, i, np.zeros(lat.d)) for i in range(lat.n)], m, off, N, ('k_x', 'k_y', 'k_z')[:lat.d])
    for sym_, given, bm, pretty in ((True, hops, False, False), (False, full, True, True), (True, full, True, True)):
        kw = dict(bloch_model=bm, symmetrize=sym_, prettify=pretty)
        hv, sy, norbs = build(rng, rec, lat, s, m, off, N, gens, cons, rep, given, kw, sites)
        F = qsymm.bloch_family(hv, sy, norbs, **kw)
        results.append(space.coordinates(rec, F, 'only allowed hoppings', tol=1e-6))
        note_options(rec, kw)
    A = results[0]
    for B in results[1:]:
        rec.check(len(A) == len(B), 'strategies give families of equal size', got=[len(x) for x in results])
        if len(A):
            q, _ = np.linalg.qr(A.T)
            fam.same_span(rec, B, q.T, 'other strategy')
    rec.event('equal spans')
    rec.sig('strategies', lat.which, tuple(s), len(gens), len(cons), len(full), len(A))


def symbolic(rng, rec):
    """Hopping vectors with a symbolic lattice constant."""
    import qsymm
    d = int(rng.integers(1, 4))
    a0 = sympy.Symbol('a_0')
    R = {1: [-np.eye(1, dtype=int)], 2: [np.array([[0, -1], [1, 0]])], 3: [np.diag([-1, -1, 1]), np.diag([1, -1, -1])]}[d]
    s = gen.choice(rng, [0, .5])
    m = int(2 * s + 1)
    gens = [(qsymm.PointGroupElement(r, False, False, spin_rep(r, s) if s else np.eye(1)), [0]) for r in R]
    if rng.random() < .5:
        gens.append((qsymm.PointGroupElement(np.eye(d, dtype=int), True, False, la.expm(-1j * np.pi * spin(s)[1]) if s else np.eye(1)), [0]))
    v = np.zeros(d, int)
    v[int(rng.integers(d))] = int(rng.integers(1, 3))
    if d > 1 and rng.random() < .5:
        v = v + np.eye(d, dtype=int)[int(rng.integers(d))]
    kw = dict(prettify=bool(rng.random() < .5), symmetrize=True)
    rec.note(v=v, gens=repr(gens), kw=kw)
    F = qsymm.bloch_family([('A', 'A', [a0 * int(x) for x in v])], [g for g, _ in gens], (('A', m),), **kw)

    class one:
        d, n = v.size, 1
    full = orbit([(0, 0, v.astype(float))], gens, one) + [(0, 0, np.zeros(d))]
    space = make_space(rng, full, [m], [0, m], m, ('k_x', 'k_y', 'k_z')[:d])
    val = lambda x, p: ev.mev(x, p.with_values({'a_0': 1.}))
    N = space.invariant([fam.as_op(g) for g, _ in gens])
    C = space.coordinates(rec, F, 'only allowed hoppings', value=val, tol=1e-6)
    fam.same_span(rec, C, N, 'family with symbolic vectors')
    rec.event('symbolic vectors')
    rec.sig('symbolic', d, s, tuple(v), len(gens), len(F))


def rejected(rng, rec):
    import qsymm
    U = np.eye(2)
    g = qsymm.PointGroupElement(gen.rot2(2 * np.pi / 3), False, False, U)
    hop = [('A', 'B', [0., 1 / np.sqrt(3)])]
    norbs = (('A', 1), ('B', 1))
    how = gen.choice(rng, ['float rotation', 'continuous rotation', 'norbs'])
    if how == 'float rotation':
        rec.raises(ValueError, lambda: qsymm.bloch_family(hop, [g], norbs, bloch_model=False), 'floating point rotation for a Model')
    elif how == 'continuous rotation':
        c = qsymm.ContinuousGroupGenerator(np.array([[0, 1j], [-1j, 0]]), np.zeros((2, 2)))
        rec.raises(ValueError, lambda: qsymm.bloch_family(hop, [c], norbs, bloch_model=True), 'continuous rotation')
    else:
        rec.raises(ValueError, lambda: qsymm.bloch_family(hop, [g], dict(norbs), bloch_model=True), 'unordered norbs')
    rec.event('rejected')
    rec.sig('rejected', how)


FAMILIES = {
    'family': (family, 280, 8000),
    'strategies': (strategies, 28, 2000),
    'symbolic': (symbolic, 40, 600),
    'rejected': (rejected, 10, 20),
}
