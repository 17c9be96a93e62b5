"""P06: calls do not modify their inputs or leak state between each other.

A catalogue of public calls whose arguments are a function of a number.  Programs
of calls are executed in several orders, with failing calls and in-place changes
of the returned objects in between; the same calls are executed in a process in
which nothing happened before.  Digests of the arguments, of the process-wide
tables and frozen copies of all results are compared.
"""
import os
import pickle
import struct
import warnings

import numpy as np
import scipy.sparse as sp
import sympy

from .. import ev, gen, mon, pipelines
from ..core import Violated

RULE = ('states are (calls of a program, order, faults between them); every result is compared with the result of the same call in '
        'other histories and in a process where it is the first call; arguments are compared before and after every call')
REQUIRED_EVENTS = ('call repeated', 'result changed in place', 'fresh process', 'failing call', 'other order', 'shared arguments', 'monitored session', 'session kdotp',
                   'session bloch', 'session parse', 'conversion table', 'default arguments')
ASSUMPTIONS = ['constructors keep the value arrays they are given, and item access, T and toarray may refer to the stored arrays, as in numpy',
               'the seed of numpy.random is an argument of the functions that use it',
               'solutions of sparse linear algebra (random start vectors inside ARPACK) are not compared bit by bit and left out here']

CATALOGUE = {}
VIEWS = set()


def spec(f):
    CATALOGUE[f.__name__] = f
    return f


def view(f):
    VIEWS.add(f.__name__)
    return spec(f)


# Every entry: rng -> (callable, args, kwargs).  The arguments are new objects.

def a_model(rng, fmt=None, dim=3, n=None, momenta=None):
    import qsymm
    n = n or int(rng.integers(1, 4))
    momenta = momenta or ('k_x', 'k_y', 'k_z')[:dim]
    fmt = fmt or gen.choice(rng, ['dense', 'dense', 'dense', 'csr'])
    ks = gen.keys(rng, int(rng.integers(1, 4)), momenta, gen.choice(rng, ['poly', 'mixed', 'bloch']))
    kw = {}
    if rng.random() < .15:
        # a model that only keeps some terms
        kw['keep'] = list(ks) + gen.keys(rng, 1, momenta, 'poly') + [1]
    return qsymm.Model({k: gen.value(rng, fmt, (n, n), 'complex') for k in ks}, momenta=list(momenta), **kw)


def a_poly(rng, n=2, dim=2):
    import qsymm
    mom = ('k_x', 'k_y', 'k_z')[:dim]
    return qsymm.Model({gen.monomial(rng, mom, max_power=2): gen.hermitian(rng, n) for _ in range(3)}, momenta=mom)


def a_bloch(rng, n=2):
    import qsymm
    ks = gen.keys(rng, 2, ('k_x', 'k_y'), 'bloch')
    return qsymm.BlochModel({k: gen.array(rng, (n, n), 'complex') for k in ks}, momenta=('k_x', 'k_y'))


def a_rot(rng, dim=2):
    if dim == 2:
        return gen.choice(rng, [np.array([[0, -1], [1, 0]]), np.diag([1, -1]), np.array([[1, -1], [1, 0]]), -np.eye(2, dtype=int), -np.eye(2),
                                gen.rot2(2 * np.pi / 3), np.array([[0., -1.], [1., 0.]]), sympy.Matrix([[0, -1], [1, 0]]),
                                sympy.ImmutableMatrix([[sympy.Rational(-1, 2), -sympy.sqrt(3) / 2], [sympy.sqrt(3) / 2, sympy.Rational(-1, 2)]])])
    return gen.choice(rng, [np.array([[0, -1, 0], [1, 0, 0], [0, 0, 1]]), -np.eye(3, dtype=int), np.array([[0, 0, 1], [1, 0, 0], [0, 1, 0]]), -np.eye(3)])


def an_op(rng, dim=2, n=2, U=True):
    import qsymm
    return qsymm.PointGroupElement(a_rot(rng, dim), bool(rng.random() < .4), bool(rng.random() < .3), gen.unitary(rng, n) if U else None)


def locals_(rng):
    return {'b': gen.choice(rng, ['b + c', 'k_x*k_y', '2', [[0, 2], [0, 0]]]), 'sigma_x': gen.choice(rng, [[[0, 2], [2, 0]], 'sigma_y', np.eye(2)])}


@spec
def model_text(rng):
    import qsymm
    s = gen.choice(rng, pipelines.STRINGS)
    return qsymm.Model, (s,), {}


@spec
def model_locals(rng):
    import qsymm
    return qsymm.Model, ('k_x * sigma_x + b * sigma_z * k_y',), dict(locals={'b': gen.choice(rng, ['b + c', 'mu', 'e'])}, momenta=['k_x', 'k_y'])


@view
def model_dict(rng):
    import qsymm
    return qsymm.Model, ({'a * k_x': gen.array(rng, (2, 2), 'complex'), sympy.Symbol('k_y')**2: np.eye(2)},), gen.choice(rng, [{}, dict(momenta=['k_x', 'k_y']), dict(keep={'a': 1}.keys() and [sympy.Symbol('a')])])


@view
def model_empty(rng):
    import qsymm
    def f(shape):
        m = qsymm.Model(shape=shape, format=np.ndarray)
        return m, m.momenta, sorted(map(str, m.keep)), m['a'], dict(m)
    return f, ((2, 2),), {}


@spec
def bloch_empty(rng):
    import qsymm
    def f(shape):
        m = qsymm.BlochModel(shape=shape, format=np.ndarray)
        return m, list(map(str, m.momenta)), sorted(map(str, m.keep))
    return f, ((2, 2),), {}


@spec
def model_sympy(rng):
    import qsymm
    x, y, a = sympy.symbols('k_x k_y a')
    return qsymm.Model, (sympy.Matrix([[x**2, a * y], [a * y, -x**2 + a]]),), gen.choice(rng, [{}, dict(momenta=[y, x]), dict(momenta=['k_y'])])


@view
def model_model(rng):
    import qsymm
    m = a_model(rng)
    return qsymm.Model, (m,), gen.choice(rng, [{}, dict(momenta=m.momenta)])


def binary(name, f):
    def g(rng):
        fmt = gen.choice(rng, ['dense', 'dense', 'csr'])
        m = a_model(rng, fmt, n=2)
        n = a_model(rng, fmt, n=2) if rng.random() < .7 else m * 2
        return f, (m, n), {}
    g.__name__ = name
    spec(g)


binary('add', lambda m, n: m + n)
binary('sub', lambda m, n: m - n)
binary('matmul', lambda m, n: m @ n)
binary('iadd', lambda m, n: sum([m, n, m]))
binary('equal', lambda m, n: (m == n, m == m.copy(), m.allclose(n), m.allclose(m)))


def unary(name, f, v=False):
    def g(rng):
        return f, (a_model(rng),), {}
    g.__name__ = name
    (view if v else spec)(g)


unary('add_zero', lambda m: (m + 0, 0 + m))
unary('add_empty', lambda m: (m + m.zeros_like(), m.zeros_like() + m))
unary('neg', lambda m: -m)
unary('scale', lambda m: (m * 2, 3j * m, m / 2, m * 1, m * 0))
unary('times_symbol', lambda m: (m * sympy.Symbol('q'), sympy.Symbol('a') * m))
unary('copy', lambda m: m.copy())
unary('transpose', lambda m: m.T(), True)
unary('conj', lambda m: m.conj())
unary('trace', lambda m: m.trace())
unary('around', lambda m: (m.around(2), m.around()))
unary('tocsr', lambda m: m.tocsr())  # refers to the data, as scipy
VIEWS.add('tocsr')
unary('toarray', lambda m: m.toarray(), True)
unary('eliminate', lambda m: m.eliminate_zeros())
unary('tosympy', lambda m: m.tosympy())
unary('tosympy_n', lambda m: m.tosympy(nsimplify=True))
unary('zeros_like', lambda m: m.zeros_like())
unary('values', lambda m: (m.value_list(list(m.keys())), m.value_list([sympy.Symbol('zzz')])), True)
unary('lookup', lambda m: ([m[k] for k in list(m)], m['zzz'], [k in m for k in list(m) + [sympy.Symbol('zzz')]], len(m)), True)
unary('lambdified', lambda m: call_lambda(m))
unary('evaluated', lambda m: m.evalf({s: .7 for k in m for s in k.free_symbols}))
unary('repr', lambda m: (repr(m), str(m)))


def call_lambda(m):
    import inspect
    f = m.toarray().lambdify()
    return f(*[.3 + .1 * i for i in range(len(inspect.signature(f).parameters))])


@spec
def mul_array(rng):
    m = a_model(rng, 'dense', n=2)
    A = gen.array(rng, (2, 2), 'complex')
    return (lambda m, A: (m @ A, A @ m, m * A)), (m, A), {}


@spec
def subs(rng):
    import qsymm
    m = a_model(rng)
    x = gen.choice(rng, [{'a': 1.5, 'k_x': 'q'}, [('b', sympy.Symbol('c') + 1), ('c', 0)], {sympy.Symbol('k_y'): sympy.Symbol('k_x') + 1}])
    return (lambda m, x: m.subs(x)), (m, x), {}


@spec
def rotate(rng):
    dim = int(rng.integers(2, 4))
    m = a_model(rng, 'dense', dim=dim)
    return (lambda m, R: m.rotate_momenta(R)), (m, gen.choice(rng, [a_rot(rng, dim), np.array(a_rot(rng, dim)).astype(float)])), {}


@spec
def bloch_ops(rng):
    import qsymm
    return (lambda m: (m + m, -m, m * 2, m.conj(), m.rotate_momenta(np.array([[0, -1], [1, 0]])), m.copy(), m.tomodel(), m.subs({'a': 2}), m @ m, m.tosympy())), (a_bloch(rng),), {}


@view
def bloch_from_model(rng):
    import qsymm
    x = gen.keys(rng, 2, ('k_x', 'k_y'), 'bloch')
    m = qsymm.Model({k: gen.array(rng, (2, 2), 'complex') for k in x}, momenta=('k_x', 'k_y'))
    return qsymm.BlochModel, (m,), gen.choice(rng, [{}, dict(momenta=['k_x', 'k_y'])])


@spec
def bloch_symbolic(rng):
    import qsymm
    return qsymm.BlochModel, (gen.choice(rng, ['t * exp(I * k_x) * sigma_x + t * exp(-I * k_x) * sigma_x', 'cos(k_y) * eye(2) * m']),), dict(momenta=['k_x', 'k_y'])


# -- operators ------------------------------------------------------------------

@spec
def op_products(rng):
    dim = int(rng.integers(2, 4))
    g = an_op(rng, dim)
    R = gen.choice(rng, [g.R, a_rot(rng, dim) if dim == 3 else -np.eye(2, dtype=int)])
    import qsymm
    h = qsymm.PointGroupElement(R, True, False, np.eye(2)[::-1] + 0j)
    def f(g, h):
        out = [g.inv(), g * g, g ** 2, g ** -1, g ** 0, g.identity(), g == h, g == g, g < h, h < g, h * h, h.inv()]
        if isinstance(g.R, type(h.R)):
            out += [g * h, h * g]
        return out
    return f, (g, h), {}


@spec
def op_create(rng):
    import qsymm
    R = a_rot(rng)
    return qsymm.PointGroupElement, (R, gen.choice(rng, [True, False])), {}


@spec
def op_create_default(rng):
    import qsymm
    return (lambda R: (qsymm.PointGroupElement(R), qsymm.PointGroupElement(R)._strict_eq, qsymm.ContinuousGroupGenerator())), (a_rot(rng),), {}


@spec
def op_apply(rng):
    g = an_op(rng, 2, 2)
    m = a_bloch(rng) if rng.random() < .3 else a_model(rng, dim=2, n=2)
    return (lambda g, m: g.apply(m)), (g, m), {}


@spec
def op_apply_chain(rng):
    import qsymm
    g, h = qsymm.PointGroupElement(np.array([[0, -1], [1, 0]]), False, False, gen.unitary(rng, 2)), qsymm.time_reversal(2, spin=.5)
    return (lambda g, h, m: (g.apply(h.apply(m)), (g * h).apply(m), g.inv().apply(g.apply(m)))), (g, h, a_poly(rng)), {}


@spec
def cgg_apply(rng):
    import qsymm
    g = qsymm.ContinuousGroupGenerator(np.array([[0, 1j], [-1j, 0]]), gen.hermitian(rng, 2))
    return (lambda g, m: (g.apply(m), repr(g), str(g))), (g, a_poly(rng)), {}


@spec
def op_names(rng):
    from qsymm import groups as qg
    import qsymm
    g = an_op(rng, int(rng.integers(2, 4)))
    def f(g):
        try:
            return [qg.pretty_print_pge(g), qg.pretty_print_pge(g, full=True), qg.pretty_print_pge(g, latex=True), repr(g), str(g)]
        except ValueError as ex:
            return [repr(g), type(ex).__name__]
    return f, (g,), {}


@spec
def op_library(rng):
    import qsymm
    s = gen.choice(rng, [.5, 1])
    n = int(2 * s + 1)
    return (lambda s, ax, U: [qsymm.time_reversal(3, spin=s), qsymm.rotation(1 / 3, ax, spin=s), qsymm.mirror(ax, spin=s), qsymm.inversion(3, U), qsymm.particle_hole(3, U),
                              qsymm.chiral(2, U), qsymm.time_reversal(2), qsymm.rotation(1 / 4), qsymm.rotation(1 / 4, inversion=True), qsymm.identity(2, n),
                              qsymm.groups.spin_matrices(s), qsymm.groups.spin_rotation(np.array([.1, .2, .3]), s), qsymm.groups.L_matrices()]), (s, [1, 0, 0], np.eye(n)), {}


@spec
def op_permutation(rng):
    from qsymm import groups as qg
    on = {('A', 'B'): np.eye(1), ('B', 'A'): np.eye(1)} if rng.random() < .5 else None
    return (lambda R, p, n: qg.symmetry_from_permutation(R, p, n)), (-np.eye(2, dtype=int), {'A': 'B', 'B': 'A'}, (('A', 1), ('B', 1))), {}


@view
def group(rng):
    import qsymm
    from qsymm import groups as qg
    R = gen.choice(rng, [np.array([[0, -1], [1, 0]]), np.array([[1, -1], [1, 0]]), gen.rot2(2 * np.pi / 3), np.diag([1., -1.]), np.diag([1, -1])])
    gens = {qsymm.PointGroupElement(R), qsymm.PointGroupElement(np.eye(2, dtype=np.asarray(R).dtype), True, False)}
    if rng.random() < .5:
        gens = {qsymm.PointGroupElement(g.R, g.conjugate, False, np.eye(2)) for g in gens}
    return (lambda g: sorted(qg.generate_group(g))), (gens,), {}


@spec
def group_library(rng):
    from qsymm import groups as qg
    return gen.choice(rng, [lambda: sorted(qg.square()), lambda: sorted(qg.hexagonal(sympy_R=False)), lambda: sorted(qg.cubic(generators=True)), lambda: qg.square(generators=True),
                            lambda: sorted(qg.hexagonal()), lambda: sorted(qg.hexagonal(tr=False, ph=True)), lambda: sorted(qg.cubic(ph=False))]), (), {}


@spec
def subgroups(rng):
    from qsymm import groups as qg
    import qsymm
    G = qg.generate_group({qsymm.PointGroupElement(np.diag([1, -1])), qsymm.PointGroupElement(-np.eye(2, dtype=int)), qsymm.PointGroupElement(np.eye(2, dtype=int), True, False)})
    return (lambda G: sorted((sorted(map(repr, k)), sorted(map(repr, v))) if v is not None else sorted(map(repr, k)) for k, v in pairs(qg.generate_subgroups(G)))), (G,), {}


def pairs(x):
    return x.items() if hasattr(x, 'items') else ((k, None) for k in x)


# -- generation -----------------------------------------------------------------

def some_gens(rng, dim=2):
    import qsymm
    out = [qsymm.time_reversal(dim, spin=.5)]
    if dim == 2:
        out.append(gen.choice(rng, [qsymm.rotation(1 / 4, spin=.5), qsymm.mirror([1, 0], spin=.5), qsymm.rotation(1 / 3, spin=.5)]))
    else:
        out.append(gen.choice(rng, [qsymm.rotation(1 / 4, [0, 0, 1], spin=.5), qsymm.inversion(3, np.eye(2))]))
    if rng.random() < .3:
        out.append(qsymm.ContinuousGroupGenerator(None, np.diag([.5, -.5])))
    return out


@spec
def continuum(rng):
    import qsymm
    dim = int(rng.integers(2, 4))
    kw = gen.choice(rng, [{}, {}, dict(all_powers=[[0, 1], 2, 1]), dict(momenta=['p', 'q', 'r']), dict(prettify=True), dict(all_powers=[1, 1, 1])])
    return qsymm.continuum_hamiltonian, (some_gens(rng, dim), dim, gen.choice(rng, [1, 2, [0, 1], [2]])), kw


@spec
def pairing(rng):
    import qsymm
    g = [qsymm.time_reversal(2, spin=.5), qsymm.rotation(1 / 4, spin=.5)]
    kw = gen.choice(rng, [{}, dict(phases=[1, -1]), dict(phases=[-1, 1j]), dict(ph_square=-1), dict(momenta=['p', 'q', 'r'])])
    return qsymm.continuum_pairing, (g, 2, gen.choice(rng, [0, 1])), kw


@spec
def blochfam(rng):
    import qsymm
    g = [qsymm.rotation(1 / 4, spin=.5), qsymm.time_reversal(2, spin=.5)]
    kw = gen.choice(rng, [{}, dict(bloch_model=True), dict(onsites=False), dict(momenta=['p', 'q', 'r'])])
    hop = [('s', 's', gen.choice(rng, [[1, 0], [0, 1], [1, 1]]))]
    return qsymm.bloch_family, (hop, g, gen.choice(rng, [(('s', 2),), [('s', 2)]])), kw


@spec
def bloch_graphene(rng):
    import qsymm
    R = sympy.ImmutableMatrix([[sympy.Rational(-1, 2), -sympy.sqrt(3) / 2], [sympy.sqrt(3) / 2, sympy.Rational(-1, 2)]])
    g = [qsymm.PointGroupElement(R, False, False, np.eye(2)), qsymm.time_reversal(2, np.eye(2))]
    return qsymm.bloch_family, ([('A', 'B', [0, 1 / sympy.sqrt(3)])], g, [('A', 1), ('B', 1)]), gen.choice(rng, [{}, dict(symmetrize=False), dict(prettify=False)])


def a_family(rng):
    import qsymm
    return qsymm.continuum_hamiltonian(some_gens(rng), 2, 1) + qsymm.continuum_hamiltonian([qsymm.time_reversal(2, spin=.5)], 2, 1)


def famspec(name, f, dup=True):
    def g(rng):
        F = a_family(rng)
        if not dup:
            from qsymm import hamiltonian_generator as hg
            F = hg.remove_duplicates(F)
        F = [F[i] for i in rng.permutation(len(F))]
        return f, (F,), {}
    g.__name__ = name
    spec(g)


def HG():
    from qsymm import hamiltonian_generator as hg
    return hg


famspec('unique', lambda F: HG().remove_duplicates(F))
famspec('subtract', lambda F: HG().subtract_family(F, F[:2]))
famspec('subtract_none', lambda F: HG().subtract_family(F, []))
famspec('pretty', lambda F: HG().make_basis_pretty(F), False)
famspec('from_family', lambda F: (HG().hamiltonian_from_family(F, tosympy=False), HG().hamiltonian_from_family(F, coeffs=['u_%d' % i for i in range(0)] or None, nsimplify=False)))
famspec('check', lambda F: HG().check_symmetry(F, [__import__('qsymm').time_reversal(2, spin=.5)]))


@spec
def constrain(rng):
    import qsymm
    F = qsymm.continuum_hamiltonian([qsymm.time_reversal(2, spin=.5)], 2, 1)
    s = gen.choice(rng, [[qsymm.rotation(1 / 4, spin=.5)], [qsymm.time_reversal(2, spin=.5)], [qsymm.PointGroupElement(np.eye(2, dtype=int), False, False, np.eye(2))]])
    return (lambda s, F: HG().constrain_family(s, F)), (s, gen.choice(rng, [F, F, F[:1], []])), {}


@spec
def symmetrized(rng):
    import qsymm
    m = a_poly(rng)
    return (lambda m, s: HG().symmetrize_monomial(m, s)), (m, [qsymm.rotation(1 / 4, spin=.5), qsymm.time_reversal(2, spin=.5)]), {}


@spec
def from_coeffs(rng):
    import qsymm
    F = qsymm.continuum_hamiltonian([qsymm.time_reversal(2, spin=.5)], 2, 1)
    c = [gen.choice(rng, ['u_%d' % i, sympy.Symbol('v_%d' % i)]) for i in range(len(F))]
    c = [sympy.Symbol(str(x)) for x in c]
    return (lambda F, c: HG().hamiltonian_from_family(F, coeffs=c, tosympy=False)), (F, c), {}


# -- search ---------------------------------------------------------------------

@spec
def search(rng):
    import qsymm
    from qsymm import groups as qg
    m = gen.choice(rng, [qsymm.Model(gen.choice(rng, pipelines.STRINGS[:1] + pipelines.STRINGS[3:5]), momenta=['k_x', 'k_y']), a_poly(rng)])
    C = gen.choice(rng, [None, qg.square(), sorted(qg.square(tr=False)), list(qg.hexagonal(sympy_R=False))])
    kw = gen.choice(rng, [{}, dict(generators=True), dict(continuous_rotations=True), dict(prettify=True)])
    if any('cos' in str(k) or 'e**' in str(k) for k in m):
        kw = {}
    def f(m, C, **kw):
        a, b = qsymm.symmetries(m, C, **kw)
        return sorted(a), b
    return f, (m, C), kw


@spec
def conserved(rng):
    from qsymm import symmetry_finder as sf
    import qsymm
    W = gen.unitary(rng, 4)
    m = qsymm.Model({k: W @ np.kron(np.eye(2), v) @ W.conj().T for k, v in a_poly(rng).items()}, momenta=['k_x', 'k_y'])
    if rng.random() < .5:
        return (lambda m: qsymm.symmetries(m)[1]), (m,), {}
    Q = W.reshape(4, 2, 2).transpose(1, 0, 2)
    return (lambda P, p: sf.conserved_quantities(P, prettify=p)), ([Q], bool(rng.random() < .5)), {}


@spec
def discrete(rng):
    from qsymm import symmetry_finder as sf
    import qsymm
    return (lambda m, C: sorted(sf.discrete_symmetries(m, C)[0])), (a_poly(rng), set(qsymm.groups.square())), {}


@spec
def rotations(rng):
    from qsymm import symmetry_finder as sf
    import qsymm
    m = qsymm.Model(gen.choice(rng, ['k_x * sigma_x + k_y * sigma_y + k_z * sigma_z', '(k_x**2 + k_y**2 - mu) * sigma_0 + alpha * (k_x * sigma_y - k_y * sigma_x)', 'k_x**2 * eye(2) + k_y * sigma_x']))
    return (lambda m: sf.continuous_symmetries(m)), (m,), {}


@spec
def bravais(rng):
    import qsymm
    p = gen.choice(rng, [np.eye(2), np.array([[1, 0], [.5, np.sqrt(3) / 2]]), np.eye(3), [[1, 0], [0, 1.3]]])
    return (lambda p, **kw: sorted(qsymm.bravais_point_group(p, **kw))), (p,), gen.choice(rng, [{}, dict(tr=True), dict(ph=True), dict(verbose=False)])


@spec
def adapted(rng):
    from qsymm import symmetry_finder as sf
    from qsymm import groups as qg
    W = gen.unitary(rng, 3)
    S = np.array(qg.spin_matrices(gen.choice(rng, [.5, 1])))
    g = np.array([np.kron(s, np.eye(2)) for s in S])
    if rng.random() < .5:
        g = gen.orthogonal(rng, 3) @ g.reshape(3, -1)
        g = g.reshape(3, 2 * len(S[0]), -1)
    return (lambda g: (sf.separate_lie_algebra(g), sf.casimir(g), sf.struct_const(g), sf.killing(g))), (g,), {}


# -- linear algebra ---------------------------------------------------------------

@spec
def linalg_null(rng):
    from qsymm import linalg as ql
    A = rng.normal(size=(2, 4)) + 0j
    return (lambda A: (ql.nullspace(A, sparse=False), ql.nullspace(A, return_complement=True, sparse=False))), (A,), {}


@spec
def linalg_eqn(rng):
    from qsymm import linalg as ql
    H = [gen.hermitian(rng, 2) for _ in range(2)]
    G = [h.conj() for h in H] if rng.random() < .5 else [np.kron(np.eye(2), h) for h in H]
    kw = gen.choice(rng, [{}, dict(hermitian=True), dict(hermitian=True, traceless=True)])
    return (lambda H, **kw: ql.solve_mat_eqn(H, **kw)), (G,), kw


@spec
def linalg_diag(rng):
    from qsymm import linalg as ql
    W = gen.unitary(rng, 4)
    mats = [W @ np.diag(rng.integers(0, 2, 4)) @ W.conj().T for _ in range(2)]
    return (lambda m: ql.simult_diag(m)), (mats,), {}


@spec
def linalg_rref(rng):
    from qsymm import linalg as ql
    return (lambda A: (ql.rref(A), ql.rref(A, return_S=True), ql.sparse_basis(A))), (rng.integers(-2, 3, (3, 5)).astype(float),), {}


@spec
def linalg_trace(rng):
    from qsymm import linalg as ql
    n = [gen.array(rng, (2, 2), 'complex') for _ in range(3)]
    def f(a):
        out = [ql.allclose(a[0], a[0].copy()), ql.allclose(a[0], a[1])]
        if hasattr(ql, 'mtm'):
            pass
        return out
    return f, (n,), {}


@spec
def lattice(rng):
    from qsymm import kwant_linalg_lll as kl
    B = gen.unimodular(rng, 2, steps=2, size=1) @ np.array([[1., 0], [.5, np.sqrt(3) / 2]])
    return (lambda B, v: (kl.lll(B), kl.cvp(v, B), kl.cvp(v, B, 4), kl.voronoi(B))), (B, np.array([.3, .2])), {}


@spec
def random_matrices(rng):
    from qsymm import kwant_rmt as rmt
    import numpy as np
    s = int(rng.integers(1000))
    c = gen.choice(rng, ['A', 'AIII', 'AI', 'BDI', 'D', 'C', 'AII'])
    kw = gen.choice(rng, [dict(), dict(rng=s)])

    def f(c):
        np.random.seed(s)
        return rmt.gaussian(4, c, rng=s), rmt.circular(4, c, rng=s), rmt.gaussian(4, c), rmt.circular(4, c)
    return f, (c,), {}


# -- symbolic helpers -------------------------------------------------------------

@spec
def text_plain(rng):
    from qsymm import kwant_continuum as kc
    return kc.sympify, (gen.choice(rng, ['sigma_x', 'sigma_z', 'sigma_0', 'k_x * sigma_x + b', 'kron(sigma_x, sigma_y)', '[[a, k_x], [k_x, -a]]', 'eye(2)', 'k_x * A(x) * k_x', 'identity(3)',
                                         'a + b * e', 'S * N', 'gamma * E']),), {}


@spec
def text_locals(rng):
    from qsymm import kwant_continuum as kc
    return (lambda s, l: kc.sympify(s, locals=l)), ('b * c + k_x', {'b': gen.choice(rng, ['b + c', 'k_x', 2, sympy.Symbol('z0')]), 'c': gen.choice(rng, ['b', 'c', 'b * [[1, 2], [3, 4]]', 'A(x)', 3])}), {}


@spec
def text_matrix_locals(rng):
    from qsymm import kwant_continuum as kc
    return (lambda s, l: kc.sympify(s, locals=l)), ('sigma_x * k_x', {'sigma_x': gen.choice(rng, [[[0, 2], [2, 0]], np.diag([1, 2]), sympy.Matrix([[1, 0], [0, 3]])])}), {}


@spec
def plain_sympy(rng):
    # what the rest of the program uses
    return (lambda: (sympy.sympify('a + b'), type(sympy.sympify([1, 2])).__name__, sympy.sympify('[1, 2]'), type(sympy.sympify((1, 2))).__name__, sympy.sympify({'a': 1})['a' if False else sympy.Symbol('a')])), (), {}


@spec
def text_monomials(rng):
    from qsymm import kwant_continuum as kc
    x, y, a = sympy.symbols('k_x k_y a')
    E = gen.choice(rng, [(x + y)**2 + a * x, sympy.Matrix([[x, a * y], [a * y, x**2]]), a])
    return (lambda E, g: kc.monomials(E, g)), (E, gen.choice(rng, [[x, y], ['k_x', 'k_y'], None])), {}


@spec
def text_commuting(rng):
    from qsymm import kwant_continuum as kc
    E = kc.sympify('k_x * k_y * x + y * k_x')
    return (lambda E, s: kc.make_commutative(E, *s)), (E, [sympy.Symbol('k_x'), sympy.Symbol('k_y', commutative=False)]), {}


@spec
def text_lambda(rng):
    from qsymm import kwant_continuum as kc
    return (lambda s, l: kc.lambdify(s, l)(.1, .2, .3)), ('a * k_x * eye(2) + b * sigma_x', gen.choice(rng, [None, {}, {'b': 'b'}])), {}


# -- calls that fail ---------------------------------------------------------------

def failures(rng):
    """(callable, args): documented or obvious errors"""
    import qsymm
    from qsymm import kwant_continuum as kc, groups as qg, linalg as ql, kwant_linalg_lll as kl, kwant_rmt as rmt
    M2 = qsymm.Model({'a': np.eye(2)})
    M3 = qsymm.Model({'a': np.eye(3)})
    loc = locals_(rng)
    P = qsymm.PointGroupElement
    return gen.choice(rng, [
        (lambda s, l: kc.sympify(s, l), ('a +', loc)), (lambda s, l: kc.sympify(s, l), ('b * (', loc)), (lambda s, l: kc.sympify(s, l), ('a', {'1a': 2})),
        (lambda s, l: kc.sympify(s, l), ('b + 1', {'b': 'c +'})), (lambda s, l: kc.sympify(s, l), ('[[1, 2], [3]]', loc)), (lambda s: kc.lambdify(s), ('a ** ',)),
        (lambda s: kc.sympify(s), ('sigma_x + kron(',)), (lambda s: kc.sympify(s), ('undefined.attribute',)), (lambda s: kc.sympify(s), ('[[1, 2], [3]] * k_x',)),
        (lambda s: qsymm.Model(s), ('k_x * sigma_x +',)), (lambda s: qsymm.BlochModel(s), ('exp(I * ',)), (lambda s, l: qsymm.Model(s, locals=l), ('k_x * (', loc)),
        (lambda a, b: a + b, (M2, M3)), (lambda a, b: a @ b, (M2, M3)), (lambda a: a + 1, (M2,)), (lambda a, b: a + b, (M2, qsymm.Model({'a': np.eye(2)}, momenta=['p']))),
        (lambda R: P(R), ([[1, 2], [3, 4j]],)), (lambda R: P(R), (np.array([[1, .5]]),)), (lambda g, h: g * h, (P(np.eye(2, dtype=int)), P(np.eye(3, dtype=int)))),
        (lambda g, h: g * h, (P(np.eye(2)), P(sympy.ImmutableMatrix(sympy.eye(2))))),
        (lambda g, m: g.apply(m), (P(np.eye(2, dtype=int), U=np.eye(2)), M3)), (lambda R: qsymm.ContinuousGroupGenerator(R), (np.eye(2),)),
        (lambda a: qsymm.continuum_hamiltonian(a, 2, 1), ([],)), (lambda a: qsymm.continuum_hamiltonian([a], 2, 1), (P(np.eye(2, dtype=int)),)),
        (lambda h, s, n: qsymm.bloch_family(h, s, n), ([('a', 'b', [1, 0])], [qsymm.time_reversal(2, spin=.5)], [('a', 2)])),
        (lambda h, s, n: qsymm.bloch_family(h, s, n), ([('a', 'a', [1, .5])], [qsymm.rotation(1 / 4, spin=.5)], [('a', 3)])),
        (lambda m: qsymm.symmetries(m), ('text',)), (lambda n, c: rmt.gaussian(n, c), (3, 'AII')),
        (lambda n, c: rmt.circular(n, c), (2, 'X')), (lambda a: ql.rref(a), ('x',)), (lambda a: ql.simult_diag(a), ([np.eye(2), np.eye(3)],)),
        (lambda m, s: m.subs(s), (M2, 5)), (lambda m: m.reshape_nothing(), (M2,)), (lambda m, R: m.rotate_momenta(R), (M2, np.eye(5))),
        (lambda F, s: HG().check_symmetry(F, s), ([qsymm.Model({'k_x': np.eye(2)}, momenta=['k_x', 'k_y'])], [P(-np.eye(2, dtype=int), U=np.eye(2))])),
        (lambda F, s: HG().constrain_family(s, F), ([M2], [P(np.eye(3, dtype=int), U=np.eye(4))])),
    ])


# -- frozen results -----------------------------------------------------------------

def freeze(x, depth=0):
    """Plain data with the observable content of a result."""
    import tinyarray as ta
    from collections import abc
    n = type(x).__name__
    if n in ('Model', 'BlochModel'):
        return (n, x.shape, getattr(x.format, '__name__', ''), tuple(map(str, x.momenta)), len(x), tuple(sorted(map(str, x.keep))),
                tuple(np.array(ev.mev(x, p)) for p in ev.points(5, 3)) if x.shape is not None else None)
    if n == 'PointGroupElement':
        return (n, ev.Rfloat(x.R), bool(x.conjugate), bool(x.antisymmetry), None if x.U is None else np.array(x.U, complex), bool(x._strict_eq))
    if n == 'ContinuousGroupGenerator':
        return (n, None if x.R is None else np.array(x.R).astype(complex), None if x.U is None else np.array(x.U, complex))
    if isinstance(x, np.ndarray) and x.dtype == object:
        return ('obj', x.shape, tuple(freeze(i) for i in x.flat))
    if isinstance(x, (np.ndarray, ta.ndarray_int, ta.ndarray_float, ta.ndarray_complex)):
        return ('array', np.array(x, complex))
    if sp.issparse(x):
        return ('sparse', x.toarray().astype(complex))
    if isinstance(x, (bool, np.bool_)):
        return ('bool', bool(x))
    if isinstance(x, (int, float, complex, np.number)):
        return ('number', np.array(complex(x)))
    if isinstance(x, sympy.MatrixBase):
        return ('matrix', tuple(x.shape), tuple(freeze(i) for i in x))
    if isinstance(x, sympy.Basic):
        if x.is_Number:
            return ('number', np.array(complex(x)))
        return ('sympy', str(x), tuple(sorted((s.name, bool(s.is_commutative)) for s in x.free_symbols)))
    if isinstance(x, abc.Mapping):
        return ('map', tuple(sorted(((str(k), freeze(v)) for k, v in x.items()), key=lambda t: t[0])))
    if isinstance(x, (set, frozenset)):
        return ('set', tuple(freeze(i) for i in sorted(x, key=repr)))
    if isinstance(x, (list, tuple)):
        return (n if n in ('list', 'tuple') else 'seq', tuple(freeze(i) for i in x))
    if x is None or isinstance(x, str):
        return ('plain', x)
    return ('other', n)


def agree(a, b):
    """None, or where two frozen results differ"""
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        if not (isinstance(a, np.ndarray) and isinstance(b, np.ndarray)) or a.shape != b.shape:
            return 'shapes differ'
        if a.size and not np.max(np.abs(a - b)) <= 1e-8 * max(1., np.max(np.abs(a))):
            return 'values differ: %s, %s' % (a.tolist(), b.tolist())
        return None
    if isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) != len(b):
            return 'lengths %d, %d' % (len(a), len(b))
        for x, y in zip(a, b):
            r = agree(x, y)
            if r:
                return r
        return None
    return None if a == b else '%r, %r' % (a, b)


def wreck(x, arrays=True, depth=0):
    """Change an object a call returned in every way its owner may."""
    n = type(x).__name__
    if depth > 6:
        return
    if n in ('Model', 'BlochModel'):
        for k, v in list(x.items()):
            wreck(v, arrays, depth + 1)
        for i, k in enumerate(list(x.keys())):
            if i % 2:
                del x[k]
            elif arrays and isinstance(x[k], np.ndarray):
                x[k] = x[k] * 3 + 1
            else:
                x.data.pop(k)
        x.keep.add(sympy.Symbol('junk'))
        return
    if n == 'PointGroupElement' or n == 'ContinuousGroupGenerator':
        for attr in ('U', 'R'):
            v = getattr(x, attr)
            if isinstance(v, np.ndarray):
                wreck(v, arrays, depth + 1)
        return
    if isinstance(x, np.ndarray):
        if arrays and x.flags.writeable and x.dtype != object and x.dtype.kind in 'ifc':
            x[...] = 77
        return
    if sp.issparse(x):
        if arrays and x.data.size and x.data.dtype.kind in 'ifc':
            x.data[...] = 77
        return
    if isinstance(x, sympy.MatrixBase):
        if hasattr(x, '__setitem__') and not isinstance(x, sympy.ImmutableMatrix) and x.shape[0] and x.shape[1]:
            try:
                x[0, 0] = 77
            except TypeError:
                pass
        return
    if isinstance(x, dict):
        for v in list(x.values()):
            wreck(v, arrays, depth + 1)
        x.clear()
        return
    if isinstance(x, set):
        for v in list(x):
            wreck(v, arrays, depth + 1)
        x.clear()
        return
    if isinstance(x, (list, tuple)):
        for v in x:
            wreck(v, arrays, depth + 1)
        if isinstance(x, list):
            x.clear()
            x.append('junk')


def tables():
    """Process-wide conversion rules of sympy and constants of the library."""
    from sympy.core.sympify import converter
    import qsymm
    from qsymm import kwant_continuum as kc
    out = {'converter': tuple(sorted((k.__module__ + '.' + k.__qualname__, id(v)) for k, v in converter.items()))}
    for mod in (kc, qsymm.groups, qsymm.model, qsymm.hamiltonian_generator, qsymm.symmetry_finder):
        for k, v in vars(mod).items():
            if k.startswith('__') or isinstance(v, type) or callable(v):
                continue
            if isinstance(v, (dict, list, tuple, set, np.ndarray, sympy.Basic, sympy.MatrixBase)) and k not in ('sympy',):
                try:
                    out[mod.__name__ + '.' + k] = ev.digest(v)
                except Exception:
                    pass
    return out


def default_digest():
    """Default values of the optional arguments of all public functions."""
    import inspect
    import qsymm
    from qsymm import kwant_continuum as kc, groups as qg, linalg as ql, kwant_linalg_lll as kl, kwant_rmt as rmt
    out = {}
    for mod in (qsymm.model, qg, qsymm.hamiltonian_generator, qsymm.symmetry_finder, kc, ql, kl, rmt):
        for name, f in vars(mod).items():
            fs = [(name, f)]
            if inspect.isclass(f) and f.__module__.startswith('qsymm'):
                fs = [(name + '.' + k, g) for k, g in vars(f).items()]
            for k, g in fs:
                if inspect.isfunction(g):
                    out[mod.__name__ + '.' + k] = ev.digest([x for x in (g.__defaults__ or ()) if not callable(x)]), \
                        ev.digest(sorted((a, repr(b)) for a, b in (g.__kwdefaults__ or {}).items()))
    return out


def execute(name, seed):
    f, args, kw = CATALOGUE[name](np.random.default_rng(seed))
    np.random.seed(seed % 2**31)
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        return f(*args, **kw), f, args, kw


def outcome(name, seed):
    """Frozen result, or the type of the exception."""
    try:
        return freeze(execute(name, seed)[0])
    except Exception as ex:
        return ('raises', type(ex).__name__)


# -- a process in which nothing was called ----------------------------------------------

class Zygote:
    """Forked before the first call; every request is executed in a new child."""

    def __init__(self):
        self.r1, w1 = os.pipe()
        r2, self.w2 = os.pipe()
        self.pid = os.fork()
        if self.pid == 0:
            os.close(self.r1)
            os.close(self.w2)
            try:
                self.serve(r2, w1)
            finally:
                os._exit(0)
        os.close(w1)
        os.close(r2)

    @staticmethod
    def read(fd, n):
        out = b''
        while len(out) < n:
            x = os.read(fd, n - len(out))
            if not x:
                return None
            out += x
        return out

    @staticmethod
    def write(fd, data):
        data = struct.pack('<q', len(data)) + data
        while data:
            data = data[os.write(fd, data):]

    def serve(self, r, w):
        while True:
            h = self.read(r, 8)
            if h is None:
                return
            job = pickle.loads(self.read(r, struct.unpack('<q', h)[0]))
            pid = os.fork()
            if pid == 0:
                try:
                    self.write(w, pickle.dumps([outcome(*j) for j in job]))
                except BaseException:
                    pass
                os._exit(0)
            _, status = os.waitpid(pid, 0)
            if status:
                self.write(w, pickle.dumps(None))

    def ask(self, job):
        self.write(self.w2, pickle.dumps(job))
        h = self.read(self.r1, 8)
        if h is None:
            raise RuntimeError('the reference process ended')
        return pickle.loads(self.read(self.r1, struct.unpack('<q', h)[0]))

    def close(self):
        os.close(self.w2)
        os.close(self.r1)
        os.waitpid(self.pid, 0)


ZYGOTE = None
START = {}


def worker_init(rec, seed):
    global ZYGOTE
    ZYGOTE = Zygote()
    START['tables'] = tables()
    START['defaults'] = default_digest()


def worker_done(rec):
    if ZYGOTE:
        ZYGOTE.close()


def check_tables(rec, what):
    now = tables()
    d = [k for k in START['tables'] if now.get(k) != START['tables'][k]]
    rec.check(not d, 'process-wide tables and constants are unchanged', after=what, changed=d)
    rec.check(type(sympy.sympify([1])) is list, 'sympy converts lists as always', after=what)
    rec.event('conversion table')


def fail(rng, rec):
    f, args = failures(rng)
    dig = [ev.digest(a) for a in args]
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            f(*args)
        rec.event('call that could have failed')
    except Exception as ex:
        rec.event('failing call')
    rec.check([ev.digest(a) for a in args] == dig, 'arguments of a failing call are unchanged', args=repr(args))
    check_tables(rec, 'failing call with %r' % (args,))


def program(rng, rec, names=None, wreckage=True):
    names = names or [gen.choice(rng, sorted(CATALOGUE)) for _ in range(int(rng.integers(3, 7)))]
    calls = [(n, int(rng.integers(1 << 30))) for n in names]
    # sometimes the same function with other arguments next to each other
    if rng.random() < .5:
        calls.append((calls[0][0], int(rng.integers(1 << 30))))
    rec.note(calls=calls)
    first, kept = {}, {}
    for i, c in enumerate(calls):
        if rng.random() < .3:
            fail(rng, rec)
        try:
            f, args, kw = CATALOGUE[c[0]](np.random.default_rng(c[1]))
            dig = ev.digest(args), ev.digest(kw)
            np.random.seed(c[1] % 2**31)
            try:
                with warnings.catch_warnings():
                    warnings.simplefilter('ignore')
                    r = f(*args, **kw)
            finally:
                rec.check((ev.digest(args), ev.digest(kw)) == dig, 'arguments are unchanged', call=c)
            first[c] = freeze(r)
        except Violated:
            raise
        except Exception as ex:
            first[c] = ('raises', type(ex).__name__)
            rec.event('raises ' + c[0])
            check_tables(rec, c)
            continue
        check_tables(rec, c)
        rec.event('call ' + c[0])
        # the very same arguments again
        np.random.seed(c[1] % 2**31)
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            r2 = f(*args, **kw)
        d = agree(first[c], freeze(r2))
        rec.check(not d, 'repeated call with the same objects gives the same result', call=c, difference=d)
        rec.event('shared arguments')
        if wreckage:
            arrays = c[0] not in VIEWS
            wreck(r2, arrays)
            rec.check((ev.digest(args), ev.digest(kw)) == dig, 'changing the result in place does not change the arguments', call=c)
            d = agree(first[c], freeze(r))
            rec.check(not d or not arrays, 'changing one result in place does not change another one', call=c, difference=d)
            check_tables(rec, ('changing the result of', c))
            if rng.random() < .7:
                wreck(r, arrays)
            rec.event('result changed in place')
        if rng.random() < .3:
            j = calls[int(rng.integers(i + 1))]
            d = agree(first[j], outcome(*j))
            rec.check(not d, 'repeated call gives the same result', call=j, after=calls[:i + 1], difference=d)
            rec.event('call repeated')
    # in another order
    for i in rng.permutation(len(calls)):
        c = calls[i]
        d = agree(first[c], outcome(*c))
        rec.check(not d, 'call in another order gives the same result', call=c, program=calls, difference=d)
        rec.event('other order')
    # in a process where it is the first call
    for c in calls:
        got = ZYGOTE.ask([c])
        if got is None:
            rec.skip('the reference process failed')
        d = agree(first[c], got[0])
        rec.check(not d, 'call in a fresh process gives the same result', call=c, program=calls, difference=d)
        rec.event('fresh process')
    rec.check(default_digest() == START['defaults'], 'default arguments are unchanged', program=calls)
    rec.event('default arguments')
    rec.sig(tuple(c[0] for c in calls))


def related(rng, rec):
    """Programs of calls of one area, where caches are shared."""
    areas = [['op_products', 'op_create', 'group', 'group_library', 'op_apply', 'rotate', 'op_names', 'op_create_default', 'subgroups', 'bravais'],
             ['text_plain', 'text_locals', 'text_matrix_locals', 'model_text', 'model_locals', 'plain_sympy', 'text_lambda', 'bloch_symbolic', 'text_monomials'],
             ['continuum', 'pairing', 'blochfam', 'bloch_graphene', 'constrain', 'from_family', 'pretty', 'symmetrized', 'search'],
             ['model_dict', 'model_empty', 'bloch_empty', 'model_sympy', 'model_model', 'add', 'zeros_like', 'subs', 'bloch_from_model', 'copy']]
    a = gen.choice(rng, areas)
    program(rng, rec, [gen.choice(rng, a) for _ in range(int(rng.integers(4, 8)))])


def sessions(rng, rec):
    """Realistic sessions with digests of the arguments of every call, also nested ones."""
    with mon.Monitors(rec, 3).no_mutation():
        pipelines.run(rng, rec)
    check_tables(rec, 'session')
    rec.event('monitored session')
    rec.sig('session', int(rng.integers(1 << 30)))


def twice(rng, rec):
    """A session has the same numerical results whatever happened before."""
    s = int(rng.integers(1 << 30))
    c = [gen.choice(rng, sorted(CATALOGUE)) for _ in range(2)]
    calls = [(n, s + i) for i, n in enumerate(c)]
    rec.note(calls=calls)
    want = ZYGOTE.ask(calls)
    back = ZYGOTE.ask(calls[::-1])
    if want is None or back is None:
        rec.skip('the reference process failed')
    for i in range(2):
        d = agree(want[i], back[1 - i])
        rec.check(not d, 'two calls in a fresh process give the same results in both orders', calls=calls, difference=d)
    rec.event('fresh process')
    rec.sig('twice', tuple(c))


FAMILIES = {
    'program': (program, 260, 3000),
    'related': (related, 160, 2000),
    'twice': (twice, 300, 4000),
    'sessions': (sessions, 60, 800),
}
