"""Random inputs.  Everything is drawn from the numpy Generator of the case."""
import math

import numpy as np
import scipy.sparse as sp
import scipy.sparse.linalg as sla
import sympy

PARAMS = ['a', 'b', 'c', 'mu', 't_1', 'alpha', 'Delta', 'm_0']
MOM_SETS = [('k_x', 'k_y', 'k_z'), ('k_x', 'k_y'), ('k_x',), ('k_y', 'k_z'), ('k_z', 'k_x'),
            ('p', 'q'), ('q_1', 'q_2', 'q_3'), ()]


def choice(rng, seq):
    return seq[int(rng.integers(len(seq)))]


def sym(name):
    return sympy.Symbol(name)


def e_sym():
    return sympy.Symbol('e', positive=True)


def hop_number(rng, kinds=('int', 'half', 'float', 'rat', 'sqrt')):
    k = choice(rng, kinds)
    if k == 'int':
        return sympy.Integer(int(rng.integers(-3, 4)))
    if k == 'half':
        return sympy.Rational(int(rng.integers(-3, 4)), 2)
    if k == 'rat':
        return sympy.Rational(int(rng.integers(-5, 6)), int(choice(rng, [3, 4, 6])))
    if k == 'sqrt':
        return sympy.sqrt(3) / 2 * int(choice(rng, [-1, 1]))
    return sympy.Float(round(float(rng.normal()), 3))


def monomial(rng, momenta, params=PARAMS, max_power=3, p_mom=0.7, p_par=0.5, functions=False):
    r = sympy.Integer(1)
    for k in momenta:
        if rng.random() < p_mom:
            r *= sym(k) ** int(rng.integers(0, max_power + 1))
    if params and rng.random() < p_par:
        for _ in range(int(rng.integers(1, 3))):
            r *= sym(choice(rng, params)) ** int(rng.integers(1, 3))
    return r


def bloch_factor(rng, momenta, kinds=('int', 'half', 'rat')):
    if not momenta:
        return sympy.Integer(1)
    ex = sum(hop_number(rng, kinds) * sym(k) for k in momenta)
    if rng.random() < .12:
        # with a phase that is a parameter
        ex += choice(rng, [-1, 1, 2, sympy.Rational(3, 7), sympy.Float(round(rng.normal(), 5))]) * sym(choice(rng, PARAMS))
    return e_sym() ** (sympy.I * ex)


def model_key(rng, momenta, kind='mixed', params=PARAMS):
    """A product of symbols without numerical factor."""
    u = rng.random()
    if kind == 'poly' or (kind == 'mixed' and u < 0.6):
        return monomial(rng, momenta, params)
    if kind == 'bloch':
        return monomial(rng, (), params) * bloch_factor(rng, momenta)
    r = bloch_factor(rng, momenta)
    if u < 0.8:
        r *= monomial(rng, (), params)
    elif u < 0.9:
        r *= monomial(rng, momenta, params)
    elif momenta:
        f = choice(rng, [sympy.Function('A'), sympy.Function('V'), sympy.sin, sympy.cos])
        r = monomial(rng, (), params) * f(sym(choice(rng, momenta)))
    return r


def number(rng, kind=None):
    kind = kind or choice(rng, ['int', 'float', 'complex', 'npc', 'zero', 'np64'])
    if kind == 'int':
        return int(rng.integers(-4, 5))
    if kind == 'float':
        return float(rng.normal())
    if kind == 'complex':
        return complex(rng.normal(), rng.normal())
    if kind == 'npc':
        return np.complex128(complex(rng.normal(), rng.normal()))
    if kind == 'np64':
        return np.float64(rng.normal())
    return 0


def array(rng, shape, kind=None):
    kind = kind or choice(rng, ['complex', 'complex', 'float', 'int', 'sparse-ish', 'nilp'])
    if kind == 'int':
        return rng.integers(-3, 4, size=shape)
    if kind == 'float':
        return rng.normal(size=shape)
    a = rng.normal(size=shape) + 1j * rng.normal(size=shape)
    if rng.random() < .08:
        # small, but far from the 1e-8 below which terms are dropped
        a = a * 10. ** rng.uniform(-6, -4)
    if kind == 'sparse-ish':
        a = a * (rng.random(size=shape) < 0.4)
    if kind == 'nilp' and len(shape) == 2:
        a = np.triu(a, 1)
    return a


def value(rng, fmt, shape, kind=None):
    if fmt == 'scalar':
        return number(rng, choice(rng, ['int', 'float', 'complex', 'npc']))
    a = array(rng, shape, kind)
    if fmt == 'dense':
        return a
    a = a.astype(complex)
    if fmt == 'csr':
        return sp.csr_matrix(a)
    if fmt == 'csc':
        return sp.csc_matrix(a)
    if fmt == 'lo':
        return sla.aslinearoperator(a if rng.random() < 0.5 else sp.csr_matrix(a))
    raise ValueError(fmt)


def shape_for(rng, fmt, square=False, nmax=4):
    if fmt == 'scalar':
        return ()
    n = int(rng.integers(1, nmax + 1))
    if square:
        return (n, n)
    u = rng.random()
    if fmt == 'dense' and u < 0.12:
        return (n,)
    if u < 0.6:
        return (n, n)
    return (n, int(rng.integers(1, nmax + 1)))


def momenta_set(rng, allow_empty=True, dims=None):
    while True:
        m = choice(rng, MOM_SETS)
        if (m or allow_empty) and (dims is None or len(m) in dims):
            return m


def keys(rng, n, momenta, kind='mixed', params=PARAMS):
    out = []
    tries = 0
    while len(out) < n and tries < 50:
        tries += 1
        k = model_key(rng, momenta, kind, params)
        if k not in out:
            out.append(k)
    return out


def model(rng, fmt=None, shape=None, momenta=None, kind='mixed', nterms=None, pool=None, cls=None,
          dtype=None, square=False):
    """Random Model (or BlochModel if cls is BlochModel, then kind='bloch')."""
    import qsymm
    cls = cls or qsymm.Model
    fmt = fmt or choice(rng, ['scalar', 'dense', 'dense', 'csr', 'lo'])
    momenta = momenta_set(rng) if momenta is None else momenta
    shape = shape_for(rng, fmt, square) if shape is None else shape
    n = int(rng.integers(1, 5)) if nterms is None else nterms
    if cls is qsymm.BlochModel:
        kind = 'bloch'
    ks = []
    if pool:
        ks = [pool[i] for i in rng.permutation(len(pool))[:int(rng.integers(0, n + 1))]]
    ks += [k for k in keys(rng, n - len(ks), momenta, kind) if k not in ks]
    if fmt == 'dense' and dtype is None:
        dtype = choice(rng, ['complex', 'complex', 'float', 'int', 'sparse-ish'])
    d = {k: value(rng, fmt, shape, dtype) for k in ks}
    return cls(d, momenta=momenta)


def hermitian(rng, n, kind='complex'):
    a = rng.normal(size=(n, n)) + (1j * rng.normal(size=(n, n)) if kind == 'complex' else 0)
    return (a + a.conj().T) / 2


def unitary(rng, n):
    a = rng.normal(size=(n, n)) + 1j * rng.normal(size=(n, n))
    q, r = np.linalg.qr(a)
    return q * (np.diag(r) / np.abs(np.diag(r)))


def orthogonal(rng, n, det=None):
    a = rng.normal(size=(n, n))
    q, r = np.linalg.qr(a)
    q = q * np.sign(np.diag(r))
    if det is not None and np.sign(np.linalg.det(q)) != det:
        q[:, 0] *= -1
    return q


def unimodular(rng, n, steps=6, size=2):
    A = np.eye(n, dtype=int)
    for _ in range(steps):
        if n > 1:
            i, j = rng.choice(n, 2, replace=False)
            A[i] += int(rng.integers(-size, size + 1)) * A[j]
        if rng.random() < 0.3:
            A[int(rng.integers(n))] *= -1
    return A[rng.permutation(n)]


def rot2(phi):
    return np.array([[math.cos(phi), -math.sin(phi)], [math.sin(phi), math.cos(phi)]])


def rot3(axis, phi):
    """Rodrigues formula."""
    n = np.asarray(axis, float) / np.linalg.norm(axis)
    K = np.array([[0, -n[2], n[1]], [n[2], 0, -n[0]], [-n[1], n[0], 0]])
    return np.eye(3) + math.sin(phi) * K + (1 - math.cos(phi)) * K @ K
