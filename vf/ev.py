"""Independent numeric semantics of qsymm objects.

Nothing here uses qsymm's own arithmetic: a sympy key is evaluated by walking
its tree in plain complex floating point, a value by converting it to a dense
array.  A `Point` assigns a real number to every symbol name (drawn on demand
from a seed, so that two expressions evaluated at the same point agree on it).
"""
import cmath
import math
import zlib

import numpy as np
import scipy.sparse
import scipy.sparse.linalg as sla
import sympy


class Point:
    """name -> number; unknown names get a reproducible generic real value."""

    def __init__(self, seed, values=None, lo=0.35, hi=1.35):
        self.seed = int(seed)
        self.values = dict(values or {})
        self.lo, self.hi = lo, hi

    def __getitem__(self, name):
        if name not in self.values:
            h = zlib.crc32(('%d|%s' % (self.seed, name)).encode()) / 2**32
            s = zlib.crc32(('%s|sign|%d' % (name, self.seed)).encode()) & 1
            self.values[name] = (self.lo + (self.hi - self.lo) * h) * (1 if s else -1)
        return self.values[name]

    def with_values(self, new):
        p = Point(self.seed, self.values, self.lo, self.hi)
        p.values.update(new)
        return p

    def vec(self, names):
        return np.array([self[str(n)] for n in names])


def points(seed, n=2):
    return [Point(seed * 7919 + i) for i in range(n)]


_FUN = {'sin': cmath.sin, 'cos': cmath.cos, 'exp': cmath.exp, 'tan': cmath.tan, 'sinh': cmath.sinh,
        'cosh': cmath.cosh, 'tanh': cmath.tanh, 'sqrt': cmath.sqrt, 'log': cmath.log, 'Abs': abs,
        're': lambda z: complex(z).real, 'im': lambda z: complex(z).imag,
        'conjugate': lambda z: complex(z).conjugate()}


def unknown_function(name, args):
    """A fixed generic real-analytic function for every undefined function name."""
    c = 0.3 + (zlib.crc32(name.encode()) % 1000) / 900.
    s = sum((i + 1) * a for i, a in enumerate(args))
    return cmath.cos(c * s) + c * s


def _pow(b, ex):
    ex = complex(ex)
    if ex == 0:
        return 1 + 0j
    if ex.imag == 0 and ex.real == int(ex.real) and abs(ex.real) < 64:
        return complex(b) ** int(ex.real)
    if b == 0:
        return 0j
    return cmath.exp(ex * cmath.log(b))


def _e(pt):
    return complex(pt['e']) if 'e' in pt.values else complex(math.e)


_ENV = dict(_pow=_pow, _e=_e, _exp=cmath.exp, _unk=lambda name, *a: complex(unknown_function(name, a)), _FUN=_FUN, complex=complex)
_CODE = {}


def _src(x):
    """Python source of the value of a sympy expression at the point p."""
    if isinstance(x, sympy.Symbol):
        return '_e(p)' if x.name == 'e' else 'p[%r]' % str(x.name)
    if x is sympy.I:
        return '1j'
    if isinstance(x, (sympy.Number, sympy.NumberSymbol)):
        return '(%r)' % float(x)
    if isinstance(x, sympy.Add):
        return '(' + ' + '.join(_src(a) for a in x.args) + ')'
    if isinstance(x, sympy.Mul):
        return '(' + ' * '.join(_src(a) for a in x.args) + ')'
    if isinstance(x, sympy.exp):
        return '_exp(%s)' % _src(x.args[0])
    if isinstance(x, sympy.Pow):
        if x.exp.is_Integer and abs(int(x.exp)) < 64:
            return '(%s ** (%d))' % (_src(x.base), int(x.exp))
        return '_pow(%s, %s)' % (_src(x.base), _src(x.exp))
    if isinstance(x, sympy.Function):
        name = str(x.func)
        args = [_src(a) for a in x.args]
        if len(args) == 1 and name in _FUN:
            return 'complex(_FUN[%r](%s))' % (name, args[0])
        return '_unk(%r, %s)' % (name, ', '.join(args))
    if isinstance(x, sympy.Basic) and x.is_number:
        return '(%r)' % complex(x.evalf())
    raise TypeError('oracle cannot evaluate %r of type %s' % (x, type(x)))


def kev(x, pt):
    """Complex value of a sympy expression / number / BlochCoeff-less key."""
    if isinstance(x, (int, float, complex, np.number)):
        return complex(x)
    f = _CODE.get(x)
    if f is None:
        if len(_CODE) > 20000:
            _CODE.clear()
        f = _CODE[x] = eval('lambda p: ' + _src(x), _ENV)
    return complex(f(pt))


def bkev(key, pt, momenta):
    """Value of a key of a Model or BlochModel."""
    if isinstance(key, tuple):
        hop, coeff = key
        k = pt.vec(momenta)
        hop = np.asarray(hop, dtype=float)
        return cmath.exp(1j * float(np.dot(hop, k[:len(hop)]))) * kev(coeff, pt)
    return kev(key, pt)


def dense(val):
    if isinstance(val, sla.LinearOperator):
        return np.asarray(val @ np.eye(val.shape[-1], dtype=complex))
    if scipy.sparse.issparse(val):
        return val.toarray().astype(complex)
    return np.array(val, dtype=complex)


def mev(model, pt):
    """Value of a model at a point, as a dense complex array."""
    out = np.zeros(model.shape if model.shape is not None else (), dtype=complex)
    for key, val in model.items():
        out = out + bkev(key, pt, model.momenta) * dense(val)
    return out


def mev_scale(model, pt):
    """Sum of absolute values of the terms: scale for rounding errors."""
    s = 0.
    for key, val in model.items():
        d = dense(val)
        s = s + abs(bkev(key, pt, model.momenta)) * (np.max(np.abs(d)) if d.size else 0.)
    return float(s)


def smev(expr, pt):
    """Value of a sympy scalar / matrix / array."""
    if hasattr(expr, 'shape') and not isinstance(expr, sympy.Expr):
        shp = tuple(expr.shape)
        a = np.empty(shp, dtype=complex)
        for idx in np.ndindex(*shp):
            a[idx] = kev(sympy.sympify(expr[idx]), pt)
        return a
    if isinstance(expr, sympy.MatrixBase):
        return np.array([[kev(expr[i, j], pt) for j in range(expr.shape[1])]
                         for i in range(expr.shape[0])], dtype=complex).reshape(expr.shape)
    return np.array(kev(sympy.sympify(expr), pt))


def rotated(pt, momenta, M):
    """Point with momenta k replaced by M k."""
    names = [str(k) for k in momenta]
    k = np.array([pt[n] for n in names])
    k2 = np.asarray(M, dtype=complex) @ k
    if np.allclose(np.imag(k2), 0, atol=1e-14):
        k2 = k2.real
    return pt.with_values({n: v for n, v in zip(names, k2.tolist())})


def Rfloat(R):
    """Float array of an int/float tinyarray, numpy array or sympy matrix."""
    return np.array(R).astype(float)


def apply_oracle(g, model, pt):
    """(+/-) U H(+-R^-1 k)^(*) U^dagger with plain numpy."""
    R = Rfloat(g.R)
    Rinv = np.linalg.inv(R)
    H = mev(model, rotated(pt, model.momenta, (-1 if g.conjugate else 1) * Rinv))
    if g.conjugate:
        H = H.conj()
    if g.antisymmetry:
        H = -H
    if g.U is not None:
        U = np.asarray(g.U, dtype=complex)
        H = U @ H @ U.conj().T
    return H


def digest(x, depth=0):
    """Deep content digest of any object the library takes or returns."""
    import tinyarray as ta
    from collections import abc
    if depth > 8:
        return '...'
    if x is None or isinstance(x, (bool, int, str, float, complex)):
        return repr(x)
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            return ('nd', x.shape, tuple(digest(i, depth + 1) for i in x.flat))
        return ('nd', x.shape, str(x.dtype), x.tobytes())
    if scipy.sparse.issparse(x):
        y = x.tocoo()
        return ('sp', type(x).__name__, x.shape, str(x.dtype), tuple(sorted(
            zip(y.row.tolist(), y.col.tolist(), map(repr, y.data.tolist())))))
    if isinstance(x, sla.LinearOperator):
        return ('lo', x.shape, dense(x).tobytes())
    if isinstance(x, (ta.ndarray_int, ta.ndarray_float, ta.ndarray_complex)):
        a = np.array(x)
        return ('ta', type(x).__name__, a.shape, a.tobytes())
    if isinstance(x, np.generic):
        return ('npg', str(x.dtype), repr(x))
    if isinstance(x, (sympy.Basic, sympy.MatrixBase)):
        return ('sy', type(x).__name__, sympy.srepr(x))
    n = type(x).__name__
    if n in ('Model', 'BlochModel'):
        return (n, x.shape, getattr(x.format, '__name__', str(x.format)),
                tuple(map(str, x.momenta)),
                frozenset(digest(k, depth + 1) for k in x.keep),
                frozenset((digest(k, depth + 1), digest(v, depth + 1)) for k, v in x.items()))
    if n == 'PointGroupElement':
        return (n, digest(x.R, depth + 1), bool(x.conjugate), bool(x.antisymmetry), digest(x.U, depth + 1),
                bool(x._strict_eq))
    if n == 'ContinuousGroupGenerator':
        return (n, digest(x.R, depth + 1), digest(x.U, depth + 1))
    if isinstance(x, abc.Mapping):
        return ('map', type(x).__name__, tuple((digest(k, depth + 1), digest(v, depth + 1)) for k, v in x.items()))
    if isinstance(x, (set, frozenset)):
        return ('set', tuple(sorted(map(repr, (digest(i, depth + 1) for i in x)))))
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, tuple(digest(i, depth + 1) for i in x))
    if isinstance(x, type) or callable(x):
        return ('callable', repr(x) if isinstance(x, type) else getattr(x, '__qualname__', ''))
    return ('other', repr(x))
