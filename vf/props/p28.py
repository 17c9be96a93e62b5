"""P28: symbolic helpers keep the meaning of expressions.

Expressions are generated together with their value: every symbol that does not
commute is a random matrix, every commuting one a number.  What the helpers
return is evaluated by an independent walker over the sympy tree.
"""
import itertools as it
import warnings

import numpy as np
import scipy.linalg
import sympy

from .. import ev, gen

RULE = ('states are (helper, kind of expression, names used); every generated expression carries its value with random matrices for momentum '
        'and position operators, the results are evaluated by an independent tree walker')
REQUIRED_EVENTS = ('scalar', 'matrix', 'sigma', 'kron', 'eye', 'function', 'single letter', 'greek', 'operator order', 'locals string', 'locals matrix',
                   'locals sympy', 'locals number', 'locals shadow', 'locals refer to each other', 'locals override', 'invalid name', 'failed text', 'sympy input', 'lambdify', 'lambdify function',
                   'lambdify repeated function', 'monomials', 'monomials matrix', 'monomials noncommuting', 'default generators', 'make_commutative', 'model path')
ASSUMPTIONS = ['undefined functions are polynomials of their arguments', 'rounding errors below 1e-8 of the value are not violations']

SX, SY, SZ, S0 = np.array([[0, 1], [1, 0]], complex), np.array([[0, -1j], [1j, 0]]), np.diag([1., -1]).astype(complex), np.eye(2, dtype=complex)
SIG = {'sigma_0': S0, 'sigma_x': SX, 'sigma_y': SY, 'sigma_z': SZ}
NC = ['k_x', 'k_y', 'k_z', 'x', 'y', 'z']
LETTERS = list('abcdfghijklmnopqrstuvw') + list('ABCDEFGHJKLMNOPQRSTUVWXYZ')
GREEK = ['alpha', 'beta', 'gamma', 'delta', 'epsilon', 'zeta', 'eta', 'theta', 'mu', 'nu', 'chi', 'Delta', 'Omega', 'xi', 'rho', 'sigma', 'tau', 'phi', 'psi', 'omega',
         'Gamma']
LONG = ['m_0', 't1', 'alpha_so', 'mu_s', 'B_x', 'k_F', 'k', 'Delta_p', 'x0', 'E_F', 'sigma_plus0', 'q_x']
FUNCS = ['V', 'A', 'f', 'g', 'B_z', 'phi_0', 'sin', 'cos', 'exp']


KNOWN = {'sin': scipy.linalg.sinm, 'cos': scipy.linalg.cosm, 'exp': scipy.linalg.expm}


class Env:
    """Values of all names: matrices of size m."""

    def __init__(self, rng, m, commuting=()):
        self.m = m
        self.val = {}
        self.rng = np.random.default_rng(int(rng.integers(1 << 30)))
        self.commuting = set(commuting)
        self.poly = {f: self.rng.normal(size=4) for f in FUNCS + ['h_1', 'w_1']}

    def __getitem__(self, name):
        if name not in self.val:
            if name in NC and name not in self.commuting:
                v = self.rng.normal(size=(self.m, self.m))
            else:
                v = float(self.rng.uniform(.4, 1.6)) * np.eye(self.m)
            self.val[name] = v.astype(complex)
        return self.val[name]

    def func(self, name, *args):
        if name in KNOWN:
            return KNOWN[name](args[0])
        c = self.poly[name]
        r = c[0] * np.eye(self.m) + c[1] * args[0] + c[2] * args[0] @ args[0]
        for a in args[1:]:
            r = r + c[3] * args[0] @ a + .7 * a
        return r


def walk(e, env):
    """Value of a sympy expression."""
    m = env.m
    if e.is_Symbol:
        return env[e.name]
    if e.is_Add:
        return sum(walk(a, env) for a in e.args)
    if e.is_Mul:
        r = np.eye(m, dtype=complex)
        for a in e.args:
            r = r @ walk(a, env)
        return r
    if e.is_Pow:
        b, p = e.args
        B = walk(b, env)
        if p.is_Integer:
            return np.linalg.matrix_power(B, int(p))
        P = walk(p, env)
        c = B[0, 0]
        assert np.allclose(B, c * np.eye(m)) and np.allclose(P, P[0, 0] * np.eye(m))
        return c ** P[0, 0] * np.eye(m)
    if e.is_Function:
        return env.func(str(e.func), *[walk(a, env) for a in e.args])
    return complex(e) * np.eye(m)


def value(e, env):
    """(rows, columns, m, m) or (m, m)"""
    if isinstance(e, sympy.MatrixBase) or isinstance(e, sympy.matrices.expressions.matexpr.MatrixExpr) or hasattr(e, 'tolist') and getattr(e, 'shape', ()):
        e = sympy.Matrix(e)
        return np.array([[walk(sympy.sympify(e[i, j]), env) for j in range(e.shape[1])] for i in range(e.shape[0])])
    return walk(e, env)


def number(rng):
    k = int(rng.integers(8))
    if k < 3:
        n = int(rng.integers(1, 6))
        return str(n), n
    if k == 3:
        n = round(float(rng.uniform(.1, 3)), 3)
        return repr(n), n
    if k == 4:
        a, b = int(rng.integers(1, 6)), int(rng.integers(2, 6))
        return '(%d/%d)' % (a, b), a / b
    if k == 5:
        return 'I', 1j
    if k == 6:
        return 'pi', np.pi
    return 'sqrt(%d)' % 3, np.sqrt(3)


class Gen:
    def __init__(self, rng, rec, env, nc=True, funcs=True, names=None, extra=()):
        self.rng, self.rec, self.env, self.nc, self.funcs = rng, rec, env, nc, funcs
        pool = names or [gen.choice(rng, LETTERS), gen.choice(rng, LETTERS), gen.choice(rng, GREEK), gen.choice(rng, LONG)]
        self.names = pool
        self.extra = dict(extra)       # user names: value
        self.used = set()

    def leaf(self):
        rng = self.rng
        u = rng.random()
        if self.extra and u < .35:
            n = gen.choice(rng, sorted(k for k, v in self.extra.items() if v.ndim == 2) or sorted(self.names))
            if n in self.extra:
                return n, self.extra[n]
            return n, self.env[n]
        if u < .5 and self.nc:
            n = gen.choice(rng, NC)
            if n not in self.extra:
                self.used.add(n)
                self.rec.event('operator order')
                return n, self.env[n]
        if u < .85:
            n = gen.choice(rng, self.names)
            if n not in self.extra:
                self.used.add(n)
                if len(n) == 1:
                    self.rec.event('single letter')
                elif n in GREEK:
                    self.rec.event('greek')
                return n, self.env[n]
        s, v = number(rng)
        return s, v * np.eye(self.env.m)

    def scalar(self, depth):
        rng = self.rng
        if depth <= 0:
            return self.leaf()
        k = int(rng.integers(9))
        if k < 3:
            parts = [self.scalar(depth - 1) for _ in range(int(rng.integers(2, 4)))]
            sg = [gen.choice(rng, ['+', '-']) for _ in parts[1:]]
            s, v = parts[0]
            for o, (t, w) in zip(sg, parts[1:]):
                s, v = s + ' %s ' % o + ('(%s)' % t if o == '-' else t), v + w if o == '+' else v - w
            return '(%s)' % s, v
        if k < 6:
            parts = [self.scalar(depth - 1) for _ in range(int(rng.integers(2, 4)))]
            v = parts[0][1]
            for _, w in parts[1:]:
                v = v @ w
            return ' * '.join('(%s)' % t if t[0] != '(' or True else t for t, _ in parts), v
        if k == 6:
            s, v = self.scalar(depth - 1)
            p = int(rng.integers(1, 4))
            return '(%s)**%d' % (s, p), np.linalg.matrix_power(v, p)
        if k == 7:
            s, v = self.scalar(depth - 1)
            if rng.random() < .5:
                return '-(%s)' % s, -v
            t, w = number(rng)
            return '(%s) / %s' % (s, t), v / w
        if self.funcs:
            f = gen.choice(rng, [f for f in FUNCS if f not in self.names])
            a = [self.scalar(min(depth - 2, 0)) for _ in range(1 if f in ('sin', 'cos', 'exp') or rng.random() < .7 else 2)]
            if f in ('sin', 'cos', 'exp'):
                # known functions may be rewritten for special arguments
                n = gen.choice(rng, [n for n in NC if n not in self.extra] if self.nc else self.names)
                if n in self.extra:
                    return self.leaf()
                self.used.add(n)
                a = [(n, self.env[n])]
            if not all(any(ch.isalpha() and ch not in 'I' for ch in t.replace('sqrt', '').replace('pi', '')) for t, _ in a):
                return self.leaf()
            self.rec.event('function')
            return '%s(%s)' % (f, ', '.join(t for t, _ in a)), self.env.func(f, *[w for _, w in a])
        return self.leaf()

    def const_matrix(self, n, inner=False):
        """Constant n x n matrix: (text, array)."""
        rng = self.rng
        if n == 2 and rng.random() < .6:
            s = gen.choice(rng, sorted(k for k in SIG if k not in self.extra) or ['identity(2)'])
            self.rec.event('sigma')
            return (s, SIG[s]) if s in SIG else (s, S0)
        if n == 4 and rng.random() < .7:
            (s, a), (t, b) = self.const_matrix(2, True), self.const_matrix(2, True)
            self.rec.event('kron')
            return 'kron(%s, %s)' % (s, t), np.kron(a, b)
        if n == 8:
            parts = [self.const_matrix(2, True) for _ in range(3)]
            self.rec.event('kron')
            return 'kron(%s)' % ', '.join(s for s, _ in parts), np.kron(np.kron(parts[0][1], parts[1][1]), parts[2][1])
        if rng.random() < .5:
            self.rec.event('eye')
            return gen.choice(rng, ['eye(%d)', 'identity(%d)']) % n, np.eye(n, dtype=complex)
        A = rng.integers(-2, 3, (n, n))
        return str(A.tolist()) if rng.random() < .3 and not inner else 'Matrix(%s)' % A.tolist(), A.astype(complex)

    def matrix(self, n, depth):
        rng, m = self.rng, self.env.m
        k = int(rng.integers(5))
        if depth <= 0 or k == 0:
            if rng.random() < .5:
                s, A = self.const_matrix(n)
                if s.startswith('['):
                    s = 'Matrix(%s)' % s
                return s, A[:, :, None, None] * np.eye(m)
            ent = [[self.scalar(1) if rng.random() < .6 else ('0', np.zeros((m, m))) for _ in range(n)] for _ in range(n)]
            return 'Matrix([%s])' % ', '.join('[%s]' % ', '.join(t for t, _ in row) for row in ent), np.array([[v for _, v in row] for row in ent], complex)
        if k == 1:
            (s, a), (t, b) = self.matrix(n, depth - 1), self.matrix(n, depth - 1)
            return '(%s + %s)' % (s, t), a + b
        if k == 2:
            (s, a), (t, b) = self.matrix(n, depth - 1), self.matrix(n, depth - 1)
            return '(%s) * (%s)' % (s, t), np.einsum('ijab,jkbc->ikac', a, b)
        (s, a), (t, b) = self.scalar(1), self.matrix(n, depth - 1)
        if rng.random() < .5:
            return '(%s) * (%s)' % (s, t), np.einsum('ab,ijbc->ijac', a, b)
        return '(%s) * (%s)' % (t, s), np.einsum('ijab,bc->ijac', b, a)


def compare(rec, got, want, msg, **kw):
    rec.close(got, want, msg, tol=1e-8, scale=max(1., np.max(np.abs(want), initial=0)), **kw)


def expression(rng, rec):
    """Strings without user definitions."""
    from qsymm import kwant_continuum as kc
    env = Env(rng, 2)
    G = Gen(rng, rec, env)
    if rng.random() < .5:
        s, v = G.scalar(int(rng.integers(1, 4)))
        rec.event('scalar')
        kind = 'scalar'
    else:
        n = int(gen.choice(rng, [1, 2, 2, 2, 3, 4, 8]))
        s, v = G.matrix(n, int(rng.integers(1, 3)) if n < 8 else 1)
        if s.startswith('Matrix([[') and s.endswith(']])') and s.count('Matrix') == 1 and rng.random() < .7:
            s = s[7:-1]
        rec.event('matrix')
        kind = n
    rec.note(text=s)
    r = kc.sympify(s)
    rec.check(isinstance(r, (sympy.Basic, sympy.MatrixBase)), 'result is a sympy object', got=type(r))
    if kind != 'scalar':
        rec.check(tuple(r.shape) == v.shape[:2], 'shape of the matrix', got=r.shape)
    compare(rec, value(r, env), v, 'value of the parsed expression', text=s, got_expr=r)
    for sym in r.atoms(sympy.Symbol):
        rec.check(sym.is_commutative == (sym.name not in NC), 'only momentum and position operators do not commute', symbol=sym)
    rec.check({sym.name for sym in r.atoms(sympy.Symbol)} <= G.used | {'e'}, 'only names that were written', got=r.atoms(sympy.Symbol))
    # sympy objects are returned with the same value
    rec.event('sympy input')
    r2 = kc.sympify(r)
    compare(rec, value(r2, env), v, 'value of the expression given as sympy object', text=s)
    if isinstance(r2, sympy.Basic):
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter('always')
            r3 = kc.sympify(r2, locals={'a': 1})
            compare(rec, value(r3, env), v, 'definitions are not used for sympy objects')
            rec.check(any(issubclass(x.category, RuntimeWarning) for x in w), 'ignored definitions give a warning')
    rec.sig('expr', kind, s[:60], tuple(sorted(G.used)))


def names(rng, rec):
    """The documented name space."""
    from qsymm import kwant_continuum as kc
    n = gen.choice(rng, LETTERS + GREEK + NC + ['lamda', 'upsilon', 'iota', 'kappa', 'omicron', 'Sigma', 'e', 'o', 'l'])
    r = kc.sympify(n)
    rec.note(name=n)
    rec.check(r.is_Symbol and r.name == n, 'name is a symbol', name=n, got=r)
    rec.check(r.is_commutative == (n not in NC), 'commutativity', name=n)
    rec.event('single letter' if len(n) == 1 else 'greek')
    if n != 'e' and n not in NC:
        rec.check(r == sympy.Symbol(n), 'plain symbol', name=n)
    if n == 'e':
        rec.check(r == kc.e, 'base of the exponentials')
    a, b = rng.choice(NC, 2, replace=False)
    p, q = kc.sympify('%s*%s' % (a, b)), kc.sympify('%s*%s' % (b, a))
    rec.check(p != q, 'momentum and position operators do not commute', names=(a, b))
    rec.check(kc.sympify('%s*u' % a) == kc.sympify('u*%s' % a), 'parameters commute with operators')
    both = [kc.make_commutative(x, sympy.Symbol(a), sympy.Symbol(b, commutative=bool(rng.integers(2)))) for x in (p, q)]
    rec.check(both[0] == both[1] and both[0] == sympy.Symbol(a) * sympy.Symbol(b), 'declared commuting operators commute')
    rec.check(kc.sympify('I') == sympy.I and kc.sympify('pi') == sympy.pi, 'constants')
    for s, A in SIG.items():
        rec.check(np.allclose(np.array(kc.sympify(s)).astype(complex), A), 'Pauli matrix', name=s)
    rec.event('sigma')
    k = int(rng.integers(1, 5))
    for t in ('eye(%d)', 'identity(%d)'):
        rec.check(np.allclose(np.array(kc.sympify(t % k)).astype(complex), np.eye(k)), 'identity matrix')
    bad = gen.choice(rng, ['1a', 'a b', 'lambda', 'for', '', 'a-b', 'a.b', 3, None, 'k_x*', sympy.Symbol('a'), ('a',), 'if', 'a+b', ' a', 'None', 'True', 'class'])
    rec.event('invalid name')
    rec.raises(ValueError, lambda: kc.sympify('a + 1', locals={'q': 2, bad: 1}), 'invalid name %r' % (bad,))
    if rng.random() < .3:
        # a text which cannot be parsed leaves nothing behind
        text = gen.choice(rng, ['[[1,', 'k_x +* 2', '[[a, b], [c]]', 'a b', 'sigma_x * [[1, 2, 3]]', '((k_x)', '[[1, 2], [3]] + a'])
        before = sympy.sympify([1, 2]), sympy.sympify([[1, 2], [3, 4]]), sympy.sympify('k_x').is_commutative
        try:
            kc.sympify(text, **({'locals': {'q': '[[1, 2'}} if rng.random() < .3 else {}))
        except Exception:
            rec.event('failed text')
        after = sympy.sympify([1, 2]), sympy.sympify([[1, 2], [3, 4]]), sympy.sympify('k_x').is_commutative
        rec.check(before == after and [type(i) for i in before] == [type(i) for i in after],
                  'sympy unchanged after an error', text=text)
    rec.sig('names', n, a, b, str(bad))


def definitions(rng, rec):
    """User definitions replace the names simultaneously."""
    from qsymm import kwant_continuum as kc
    env = Env(rng, 2)
    loc, extra = {}, {}
    base = Gen(rng, rec, env)
    cand = ['w', 'b', 'c', 'V_0', 'sigma_plus', 'Q', 'S', 'k_x', 'x', 'sigma_x', 'kappa', 'N']
    defs = [str(c) for c in rng.choice(cand, int(rng.integers(1, 4)), replace=False)]
    mats = []
    for d in defs:
        u = rng.random()
        if d in ('k_x', 'x', 'sigma_x'):
            rec.event('locals override')
        if u < .55:
            # text: names inside have their usual meaning, also if they are defined
            inner = Gen(rng, rec, env, names=base.names + [gen.choice(rng, [x for x in defs if x != 'sigma_x'] or ['a']) for _ in range(2)])
            s, v = inner.scalar(int(rng.integers(0, 3)))
            if d in inner.used:
                rec.event('locals shadow')
            if inner.used & set(defs) - {d}:
                rec.event('locals refer to each other')
            loc[d], extra[d] = s, v
            rec.event('locals string')
        elif u < .7:
            z = gen.choice(rng, [2, .5, 1j, sympy.Rational(1, 3), -1])
            loc[d], extra[d] = z, complex(z) * np.eye(2)
            rec.event('locals number')
        elif u < .8:
            n = gen.choice(rng, NC[:3] + ['a', 'u'])
            loc[d], extra[d] = sympy.Symbol(n, commutative=n not in NC), env[n]
            rec.event('locals sympy')
        else:
            A = gen.choice(rng, [rng.integers(-2, 3, (2, 2)), np.array([[0, 2], [0, 0]])])
            extra[d] = A[:, :, None, None] * np.eye(2)
            mats.append(d)
            k = int(rng.integers(4))
            if k == 0:
                loc[d] = A.tolist()
            elif k == 1:
                loc[d] = A
            elif k == 2:
                loc[d] = sympy.Matrix(A.tolist())
            else:
                loc[d] = str(A.tolist())
            rec.event('locals matrix')
    G = Gen(rng, rec, env, names=[n for n in base.names + defs if n not in extra or extra[n].ndim == 2] or ['a'], extra=extra)
    if 'sigma_x' in loc and extra['sigma_x'].ndim == 2 or rng.random() < .4 and not mats:
        s, v = G.scalar(int(rng.integers(1, 4)))
    else:
        s, v = G.matrix(2, 1)
        for d in mats:
            t, w = G.scalar(1)
            s, v = '%s + (%s) * %s' % (s, t, d), v + np.einsum('ab,ijbc->ijac', w, extra[d])
    rec.note(text=s, locals=loc)
    before = {k: repr(x) for k, x in loc.items()}
    r = kc.sympify(s, locals=loc)
    rec.check({k: repr(x) for k, x in loc.items()} == before, 'definitions are not changed')
    compare(rec, value(r, env), v, 'value with user definitions', text=s, locals=loc, got_expr=r)
    rec.sig('locals', tuple(sorted((k, type(x).__name__) for k, x in loc.items())), s[:40])


def lambdify(rng, rec):
    from qsymm import kwant_continuum as kc
    env = Env(rng, 1)
    extra, loc = {}, None
    if rng.random() < .4:
        d = gen.choice(rng, ['b', 'w', 'V_0', 'k_x'])
        inner = Gen(rng, rec, env, names=['b', 'c', 'alpha'])
        s, v = inner.scalar(int(rng.integers(0, 2)))
        loc, extra = {d: s}, {d: v}
    G = Gen(rng, rec, env, extra=extra)
    if rng.random() < .5:
        s, v = G.scalar(int(rng.integers(1, 4)))
    else:
        n = int(gen.choice(rng, [1, 2, 2, 4]))
        s, v = G.matrix(n, 1)
    if rng.random() < .25:
        n1, n2 = rng.choice([n for n in NC if n not in extra], 2, replace=False)
        f = gen.choice(rng, ['h_1', 'w_1'])
        t, w = '%s(%s) * %s(%s)' % (f, n1, f, n2), env.func(f, env[n1]) @ env.func(f, env[n2])
        s, v = ('(%s) * (%s)' % (t, s), w @ v) if v.ndim == 2 else ('(%s) * (%s)' % (t, s), np.einsum('ab,ijbc->ijac', w, v))
        rec.event('lambdify repeated function')
    rec.note(text=s, locals=loc)
    arg = s
    if loc is None and rng.random() < .3 and not any(f + '(' in s for f in ('sin', 'cos', 'exp')):
        # undefined functions with the name of a known one are printed as the known one
        arg = kc.sympify(s)
    expr = kc.sympify(arg, loc)
    if not isinstance(expr, (sympy.Expr, sympy.MatrixBase)):
        rec.skip('no expression')
    if {x.name for x in expr.atoms(sympy.Symbol)} & {str(x.func) for x in expr.atoms(sympy.Function)}:
        rec.skip('one name for a symbol and a function')
    f = kc.lambdify(arg, loc) if loc is not None else kc.lambdify(arg)
    want_args = sorted({x.name for x in expr.atoms(sympy.Symbol)} | {str(x.func) for x in expr.atoms(sympy.Function)})
    import inspect
    got_args = list(inspect.signature(f).parameters)
    rec.check(got_args == want_args, 'arguments are the names in alphabetical order', got=got_args, want=want_args)
    if any(a in FUNCS + ['h_1', 'w_1'] for a in got_args):
        rec.event('lambdify function')
    symbols = {x.name for x in expr.atoms(sympy.Symbol)}
    args = []
    for a in got_args:
        if a in symbols:
            args.append(env[a][0, 0].real)
        else:
            args.append(lambda *x, a=a: env.func(a, *[np.array([[y]]) for y in x])[0, 0])
    r = np.asarray(f(*args))
    compare(rec, r, v[..., 0, 0], 'value of the callable', text=s, args=got_args)
    rec.event('lambdify')
    rec.sig('lambdify', s[:60], tuple(got_args))


def monomials(rng, rec):
    from qsymm import kwant_continuum as kc
    nc = rng.random() < .4
    env = Env(rng, 2 if nc else 1, commuting=() if nc else NC)
    pars = [sympy.Symbol(str(n)) for n in rng.choice(LETTERS, 3, replace=False)]
    gens = [sympy.Symbol(str(n), commutative=not nc) for n in rng.choice(NC, int(rng.integers(1, 4)), replace=False)]

    def poly():
        r = 0
        for _ in range(int(rng.integers(1, 4))):
            t = gen.choice(rng, [1, 2, sympy.Rational(1, 3), sympy.I, 1.5, sympy.sqrt(2)])
            for _ in range(int(rng.integers(0, 4))):
                if rng.random() < .6:
                    t = t * gen.choice(rng, gens) ** int(rng.integers(1, 3))
                else:
                    t = t * gen.choice(rng, pars) ** gen.choice(rng, [1, 2, -1, sympy.Rational(1, 2)])
            if rng.random() < .3:
                t = t * (gen.choice(rng, gens) + gen.choice(rng, pars))
            if rng.random() < .15:
                t = t * (gen.choice(rng, gens) - gen.choice(rng, pars)) ** 2
            r = r + t
        return sympy.sympify(r)
    matrix = rng.random() < .5
    if matrix:
        shape = (int(rng.integers(1, 4)), int(rng.integers(1, 4)))
        E = gen.choice(rng, [sympy.Matrix, sympy.ImmutableMatrix])(*shape, [poly() if rng.random() < .7 else 0 for _ in range(shape[0] * shape[1])])
        rec.event('monomials matrix')
    else:
        E = poly()
    sel = [g for g in gens if rng.random() < .8] or gens[:1]
    if nc:
        # a coefficient that does not commute with the generators has no place in a product
        sel = gens
        rec.event('monomials noncommuting')
    if rng.random() < .25 and not nc:
        arg, sel = None, sorted(E.atoms(sympy.Symbol), key=str)
        rec.event('default generators')
    elif nc and rng.random() < .5:
        arg = [g.name for g in sel]
    else:
        arg = gen.choice(rng, [list, tuple])(sel)
        if not nc and rng.random() < .3:
            sel = sel + pars[:1]
            arg = sel
    rec.note(expr=E, gens=arg)
    r = kc.monomials(E) if arg is None else kc.monomials(E, gens=arg)
    rec.check(type(r) is dict, 'result is a dictionary')
    tot = 0
    for k, v in r.items():
        fac = [f.as_base_exp()[0] for f in sympy.Mul.make_args(k) if f != 1]
        rec.check(all(b in sel for b in fac), 'monomial of the generators', key=k)
        rec.check(not any(s in sel for s in v.atoms(sympy.Symbol)), 'coefficient is free of the generators', key=k, value=v)
        if matrix:
            rec.check(tuple(v.shape) == tuple(E.shape), 'shape of the coefficient')
        # the order only matters for the generators
        kv = walk(sympy.sympify(k), env)
        vv = value(v, env)
        tot = tot + (np.einsum('ab,ijbc->ijac', kv, vv) if matrix else kv @ vv)
    if not r:
        tot = np.zeros_like(value(E, env))
    compare(rec, tot, value(E, env), 'monomials sum to the expression')
    ks = [sympy.expand(k) for k in r]
    rec.check(len(set(ks)) == len(ks), 'monomials are different')
    rec.event('monomials')
    rec.sig('monomials', str(E)[:60], str(arg), nc)


def commuting(rng, rec):
    from qsymm import kwant_continuum as kc
    env = Env(rng, 2)
    G = Gen(rng, rec, env, funcs=False)
    s, v = G.scalar(2) if rng.random() < .5 else G.matrix(2, 1)
    E = kc.sympify(s)
    sel = [str(x) for x in rng.choice(NC, int(rng.integers(1, 7)), replace=False)]
    args = [sympy.Symbol(n, commutative=bool(rng.integers(2))) for n in sel] + ([sympy.Symbol('q')] if rng.random() < .3 else [])
    rec.note(expr=E, symbols=sel)
    r = kc.make_commutative(E, *args)
    for sym in r.atoms(sympy.Symbol):
        rec.check(sym.is_commutative == (sym.name not in NC or sym.name in sel), 'declared symbols commute, others do not', symbol=sym)
    rec.check({x.name for x in r.atoms(sympy.Symbol)} <= {x.name for x in E.atoms(sympy.Symbol)}, 'names are kept')
    # values with the declared operators replaced by numbers
    e2 = Env(rng, 2, commuting=sel)
    compare(rec, value(r, e2), value(E, e2), 'value with commuting symbols', expr=E)
    if isinstance(E, sympy.MatrixBase):
        rec.check(r.shape == E.shape, 'shape')
    rec.event('make_commutative')
    rec.sig('commuting', s[:60], tuple(sorted(sel)))


def model_path(rng, rec):
    """The helpers together: text to model and back."""
    import qsymm
    from qsymm import kwant_continuum as kc
    env = Env(rng, 1, commuting=NC)
    G = Gen(rng, rec, env, funcs=False, names=['a', 'beta', 'E', 'mu_s'])
    n = int(gen.choice(rng, [1, 2, 2, 4]))
    s, v = G.matrix(n, 1)
    rec.note(text=s)
    m = qsymm.Model(s, momenta=['k_x', 'k_y', 'k_z'])
    got = ev.mev(m, {k: env[k][0, 0].real for k in G.used} | {str(q): env[str(q)][0, 0].real for k in m.keys() for q in k.atoms(sympy.Symbol)} | {str(k): env[str(k)][0, 0].real for k in m.momenta}) \
        if len(m) else np.zeros((n, n))
    compare(rec, got, v[..., 0, 0], 'value of the model', text=s)
    rec.event('model path')
    rec.sig('model', s[:60])


def divisor(rng, rec):
    from qsymm.kwant_continuum import gcd
    import math
    f = int(rng.integers(1, 30))
    args = [int(x) * f for x in rng.integers(-40, 60, int(rng.integers(1, 7)))]
    if len(args) == 1:
        args = [abs(args[0])]
    rec.note(args=args)
    rec.check(gcd(*args) == math.gcd(*args), 'greatest common divisor', got=gcd(*args), want=math.gcd(*args))
    rec.event('divisor')
    rec.sig('gcd', len(args), math.gcd(*args) > f)


FAMILIES = {
    'divisor': (divisor, 200, 2000),
    'expression': (expression, 1600, 25000),
    'names': (names, 250, 2500),
    'definitions': (definitions, 900, 15000),
    'lambdify': (lambdify, 500, 8000),
    'monomials': (monomials, 1200, 20000),
    'commuting': (commuting, 500, 8000),
    'model path': (model_path, 160, 2500),
}
