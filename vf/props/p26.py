"""P26: printed names identify the operation."""
import fractions
import itertools as it
import re

import numpy as np
import sympy
import tinyarray as ta

from .. import ev, gen

RULE = ('states are (operator, dimension, kind of rotation, representation of the matrix, flags, format); the text is read back by an '
        'independent parser of the documented grammar and the reconstructed operation compared with the operator')
REQUIRED_EVENTS = ('identity', 'inversion', 'rotation 2D', 'mirror 2D', 'rotation 3D', 'mirror 3D', 'rotoinversion', 'two-fold', 'diagonal axis',
                   'generic axis', 'generic angle', 'small angle', 'exact', 'integer', 'float', 'noisy', 'T', 'P', 'C', 'latex', 'full', 'unitary part',
                   'not orthogonal', 'no dimension', '4D', 'generator 3D', 'generator 2D', 'conserved quantity', 'list', 'predefined group')
ASSUMPTIONS = ['axes are printed with two decimals, angles as fractions of pi with denominators up to 100, matrices with three (LaTeX two) decimals']

NUM = r'[-+]?(?:\d+\.?\d*|\.\d+)(?:e[-+]?\d+)?'


def best(theta):
    """Smallest error of fractions with denominators up to 100."""
    x = theta / np.pi
    return np.pi * min(abs(x - round(x * q) / q) for q in range(1, 101))


def angle(text, latex):
    t = text.strip()
    if latex:
        m = re.fullmatch(r'(-?)\\frac\{(\d*)\\pi\}\{(\d+)\}', t)
        if m:
            return (-1 if m[1] else 1) * int(m[2] or 1) * np.pi / int(m[3])
        m = re.fullmatch(r'(-?)(\d*)\\pi', t)
    else:
        m = re.fullmatch(r'(-?)(\d*)π/(\d+)', t)
        if m:
            return (-1 if m[1] else 1) * int(m[2] or 1) * np.pi / int(m[3])
        m = re.fullmatch(r'(-?)(\d*)π', t)
    if not m:
        raise ValueError('angle %r' % t)
    return (-1 if m[1] else 1) * int(m[2] or 1) * np.pi


def vector(text):
    t = text.strip()
    if not (t.startswith('[') and t.endswith(']')):
        raise ValueError('axis %r' % t)
    return np.array([float(x) for x in t[1:-1].replace(',', ' ').split()])


def numbers(text):
    if 'j' in text:
        return [complex(float(a), float(b)) for a, b in re.findall(r'(%s)\s*(%s)j' % (NUM, NUM.replace('[-+]?', '[-+]', 1)), text)]
    return [float(x) for x in re.findall(NUM, text)]


def read_rotation(text, d, latex):
    """Matrix described by `rot_name`, and the angle."""
    t = text.strip()
    if t == '1':
        return np.eye(d), 0.
    if t == 'I':
        return -np.eye(d), 0.
    if latex:
        t = t.replace(r'\left(', '(').replace(r'\right)', ')')
    m = re.fullmatch(r'([RMS])\((.*)\)', t, re.S)
    if not m:
        z = numbers(t)
        if len(z) != d * d:
            raise ValueError('name %r' % text)
        return np.array(z).reshape(d, d), None
    kind, arg = m[1], m[2]
    if kind == 'M':
        n = vector(arg)
        n = n / np.linalg.norm(n)
        if len(n) != d:
            raise ValueError('normal %r' % text)
        return np.eye(d) - 2 * np.outer(n, n), np.pi
    if d == 2:
        if kind != 'R':
            raise ValueError('name %r' % text)
        a = angle(arg, latex)
        return gen.rot2(a), a
    i = arg.index(',')
    a, n = angle(arg[:i], latex), vector(arg[i + 1:])
    R = gen.rot3(n, a)
    return (-R if kind == 'S' else R), a


def operation(rng, rec):
    """Orthogonal matrix: (description, float matrix, representation)."""
    d = gen.choice(rng, [1, 2, 2, 3, 3, 3, 3, 3])
    kind = gen.choice(rng, ['one', 'inv', 'rot', 'rot', 'rot', 'two', 'mirror', 'mirror', 'roto', 'roto'])
    q = gen.choice(rng, ['nice', 'nice', 'den', 'generic', 'small', 'near'])
    if q == 'nice':
        a = np.pi * gen.choice(rng, [1 / 2, 1 / 3, 2 / 3, 1 / 4, 3 / 4, 1 / 6, 5 / 6, 1 / 5, 2 / 5]) * gen.choice(rng, [1, -1])
    elif q == 'den':
        den = int(rng.integers(2, 101))
        a = np.pi * int(rng.integers(-den + 1, den)) / den
    elif q == 'generic':
        a = float(rng.uniform(-np.pi, np.pi))
        rec.event('generic angle')
    elif q == 'small':
        a = float(rng.uniform(-.1, .1))
        rec.event('small angle')
    else:
        a = np.pi - float(10.**rng.uniform(-9, -1))
    if kind == 'two':
        a = np.pi
    u = rng.random()
    if u < .25:
        n = np.eye(3)[rng.integers(3)] * gen.choice(rng, [1, -1])
    elif u < .6:
        n = rng.integers(-1, 2, 3).astype(float)
        rec.event('diagonal axis')
    elif u < .75:
        n = rng.integers(-3, 4, 3).astype(float)
    else:
        n = rng.normal(size=3)
        rec.event('generic axis')
        if rng.random() < .3:
            n[rng.integers(3)] = 0
        if rng.random() < .2:
            n -= np.mean(n)
    if not np.any(n):
        n = np.array([1., -1, 0])
    if d == 1:
        R = np.array([[1. if kind in ('one', 'rot', 'two') else -1.]])
        kind = 'one' if R[0, 0] > 0 else 'inv'
    elif d == 2:
        if kind == 'one':
            R = np.eye(2)
        elif kind == 'mirror':
            m = n[:2] if np.any(n[:2]) else np.array([1., 1])
            m = m / np.linalg.norm(m)
            R = np.eye(2) - 2 * np.outer(m, m)
            rec.event('mirror 2D')
        else:
            if kind in ('inv', 'two'):
                a = np.pi
            kind = 'two' if kind in ('inv', 'two') else 'rot'
            R = gen.rot2(a)
            rec.event('rotation 2D')
    else:
        if kind == 'one':
            R = np.eye(3)
        elif kind == 'inv':
            R = -np.eye(3)
        elif kind == 'mirror':
            R = -gen.rot3(n, np.pi)
            rec.event('mirror 3D')
        elif kind == 'roto':
            R = -gen.rot3(n, a)
            rec.event('rotoinversion')
        else:
            R = gen.rot3(n, a)
            rec.event('rotation 3D')
    if kind == 'two':
        rec.event('two-fold')
    if kind == 'one':
        rec.event('identity')
    if kind == 'inv':
        rec.event('inversion')
    return d, kind, R


def exact_rotation(rng, rec):
    """Products of exact generators."""
    r3 = sympy.sqrt(3)
    d = gen.choice(rng, [2, 3])
    if d == 2:
        gens = [sympy.Matrix([[sympy.Rational(1, 2), -r3 / 2], [r3 / 2, sympy.Rational(1, 2)]]), sympy.diag(1, -1), sympy.Matrix([[0, 1], [1, 0]]),
                sympy.Matrix([[1, -1], [1, 1]]) / sympy.sqrt(2)]
    else:
        gens = [sympy.Matrix([[sympy.Rational(1, 2), -r3 / 2, 0], [r3 / 2, sympy.Rational(1, 2), 0], [0, 0, 1]]), sympy.diag(1, 1, -1),
                sympy.Matrix([[0, 1, 0], [0, 0, 1], [1, 0, 0]]), sympy.diag(-1, -1, -1), sympy.Matrix([[0, 1, 0], [-1, 0, 0], [0, 0, 1]])]
    R = sympy.eye(d)
    for _ in range(int(rng.integers(1, 3))):
        R = R * gens[rng.integers(len(gens))]
    return d, 'exact', sympy.ImmutableMatrix(R.applyfunc(sympy.nsimplify).applyfunc(sympy.simplify))


def judge(rec, R, got, a, msg):
    d = len(R)
    if d == 2:
        true = np.arctan2(R[1, 0], R[0, 0]) if np.linalg.det(R) > 0 else 0
    elif d == 3:
        S = R * np.sign(np.linalg.det(R))
        true = np.arccos(np.clip((np.trace(S) - 1) / 2, -1, 1))
    else:
        true = 0
    rec.check(round(np.linalg.det(got)) == round(np.linalg.det(R)), msg + ': proper or improper', got=got, want=R)
    lim = best(true) * np.sqrt(2) + (.02 if d == 3 or np.linalg.det(R) < 0 else 0) + 1e-3
    dev = np.max(np.abs(got - R))
    rec.check(dev < lim, msg + ': operation read back', got=got, want=R, dev=dev, limit=lim)


def element(rng, rec):
    import qsymm
    from qsymm.groups import pretty_print_pge
    if rng.random() < .15:
        d, kind, R = exact_rotation(rng, rec)
        arg, F = R, np.array(R.tolist(), float)
        form = 'exact'
    else:
        d, kind, F = operation(rng, rec)
        form = 'float'
        arg = F
        if np.max(np.abs(F - np.round(F))) < 1e-12 and rng.random() < .6:
            form = 'integer'
            arg = gen.choice(rng, [lambda x: x, ta.array, sympy.ImmutableMatrix])(np.round(F).astype(int).tolist())
            arg = np.array(arg) if isinstance(arg, list) else arg
        elif rng.random() < .3:
            form = 'noisy'
            arg = F + 1e-13 * rng.normal(size=F.shape)
    rec.event(form)
    conj, anti = bool(rng.integers(2)), bool(rng.integers(2))
    U = None
    if rng.random() < .5:
        n = int(rng.integers(1, 5))
        U = gen.unitary(rng, n) if rng.random() < .6 else np.round(gen.orthogonal(rng, n), 3) if rng.random() < .5 else np.eye(n)[rng.permutation(n)]
        if rng.random() < .2:
            U = U.astype(complex)
    rec.note(R=arg, kind=kind, conj=conj, anti=anti, U=U)
    g = qsymm.PointGroupElement(arg, conj, anti, U)
    check_element(rng, rec, g, F, conj, anti, U)
    rec.sig('pge', d, kind, form, conj, anti, None if U is None else len(U), str(pretty_print_pge(g)))


def check_element(rng, rec, g, F, conj, anti, U):
    from qsymm.groups import pretty_print_pge
    d = len(F)
    dig = (ev.digest(g.R), ev.digest(g.U))
    az = {(True, False): 'T', (True, True): 'P', (False, True): 'C', (False, False): ''}[conj, anti]
    if az:
        rec.event(az)
    # short
    for latex in (False, True):
        s = pretty_print_pge(g, latex=latex) if rng.random() < .7 else g._repr_latex_() if latex else pretty_print_pge(g, False, False)
        rec.check(isinstance(s, str), 'name is a string')
        body = s
        if latex:
            rec.event('latex')
            rec.check(s.startswith('$') and s.endswith('$') and len(s) > 2, 'LaTeX delimiters', got=s)
            body = s[1:-1]
            sep = re.search(r'\s*\\mathcal\{([TPC])\}\s*$', body)
        else:
            sep = re.search(r'(?:^|\s+)([TPC])\s*$', body)
        sym = sep[1] if sep else ''
        rest = (body[:sep.start()] if sep else body).strip()
        rec.check(sym == az, 'antiunitary or antisymmetric character', got=s, want=az)
        if rest == '':
            rec.check(bool(az), 'empty name')
            rest = '1'
        try:
            R, a = read_rotation(rest, d, latex)
        except ValueError as ex:
            rec.check(False, 'name can be read', text=s, error=str(ex))
        judge(rec, F, R, a, 'short name')
    # full
    for latex in (False, True):
        s = pretty_print_pge(g, full=True, latex=latex) if latex or rng.random() < .6 else str(g)
        rec.event('full')
        body = s.strip()
        if latex:
            rec.check(body.startswith('$') and body.endswith('$'), 'LaTeX delimiters', got=s)
            body = body[1:-1]
            m = re.match(r'\s*U H\((.*?)\)(\^\*)? U\^\{-1\} = (-?)H\((-?)R(.*?)\)\s*\\\\\s*R = (.*)$', body, re.S)
        else:
            m = re.match(r'\s*U⋅H\(k\)()(\*?)⋅U\^-1 = (-?)H\((-?)R⋅k\)()\s*R = (.*)$', body.replace('H(k)*', 'H(k)*'), re.S)
        rec.check(m is not None, 'full name can be read', text=s)
        rec.check(bool(m[2]) == conj and bool(m[3]) == anti and bool(m[4]) == conj, 'action on the Hamiltonian', text=s)
        tail = m[6]
        i = tail.find('U = ')
        rot = tail[:i] if i >= 0 else tail
        rec.check((i >= 0) == (U is not None), 'unitary part is printed', text=s)
        rot = rot.strip()
        while rot.endswith('\\'):
            rot = rot[:-1].strip()
        try:
            R, a = read_rotation(rot, d, latex)
        except ValueError as ex:
            rec.check(False, 'full name can be read', text=s, error=str(ex))
        judge(rec, F, R, a, 'full name')
        if U is not None:
            rec.event('unitary part')
            z = numbers(tail[i + 4:])
            rec.check(len(z) == U.size, 'all entries of the unitary part', text=s)
            dev = np.array(z).reshape(U.shape) - U
            lim = .0056 if latex else .00051
            rec.check(max(np.max(np.abs(dev.real)), np.max(np.abs(dev.imag))) < lim, 'entries of the unitary part', text=s, want=U)
    rep = repr(g)
    rec.check('conjugate = %s' % conj in rep and 'antisymmetry = %s' % anti in rep, 'detailed representation', text=rep)
    rec.check((ev.digest(g.R), ev.digest(g.U)) == dig, 'printing changes nothing')


class Printer:
    def text(self, s):
        self.s = s


def predefined(rng, rec):
    """Elements of predefined and generated groups, lists."""
    import qsymm
    from qsymm import groups
    k = int(rng.integers(6))
    if k == 0:
        spin = gen.choice(rng, [None, .5])
        G = groups.cubic(tr=bool(rng.integers(2)), ph=spin is None and bool(rng.integers(2)), generators=False, spin=spin)
    elif k == 1:
        spin = gen.choice(rng, [None, 1])
        G = groups.hexagonal(dim=gen.choice(rng, [2, 3]), ph=spin is None, sympy_R=bool(rng.integers(2)), spin=spin)
    elif k == 2:
        spin = gen.choice(rng, [None, .5])
        G = groups.square(ph=spin is None, spin=spin)
    elif k == 3:
        L = np.array([[1, 0], [.5, np.sqrt(3) / 2]]) if rng.random() < .5 else np.array([[1, 1, 0], [0, 1, 1], [1, 0, 1.]])
        G = qsymm.bravais_point_group(L, tr=True)
    elif k == 4:
        n = int(rng.integers(2, 9))
        g = qsymm.rotation(1 / n, gen.choice(rng, [None, [0, 0, 1], [1, 1, 1], [1, 2, 0]]))
        if len(g.R) == 2:
            G = qsymm.groups.generate_group({g, qsymm.mirror([1, 0])})
        else:
            G = qsymm.groups.generate_group({g, qsymm.inversion(3), qsymm.time_reversal(3)})
    else:
        G = [qsymm.time_reversal(d, spin=.5) if d == 3 else qsymm.time_reversal(d) for d in range(4)] + [qsymm.chiral(2), qsymm.particle_hole(3)]
    G = sorted(G) if k < 5 else G
    names = {}
    for g in G:
        F = ev.Rfloat(g.R)
        if F.size:
            check_element(rng, rec, g, F, bool(g.conjugate), bool(g.antisymmetry), g.U)
        p = Printer()
        g._repr_pretty_(p, False)
        s = p.s
        if F.size == 0:
            rec.check(s.strip() in ('1', 'T', 'P', 'C'), 'operator without momenta', text=s)
            rec.event('no dimension')
            continue
        for F2, f2 in names.get((len(F), s), []):
            rec.check(np.max(np.abs(F - F2)) < .05 and f2 == (g.conjugate, g.antisymmetry), 'different elements have different names', name=s)
        names.setdefault((len(F), s), []).append((F, (g.conjugate, g.antisymmetry)))
    from qsymm.groups import PrettyList
    P = PrettyList(G)
    s = P._repr_latex_()
    rec.check(s.startswith('$') and s.endswith('$') and s.count('$') == 2, 'list of names', text=s[:100])
    pos = 0
    for g in G:
        part = g._repr_latex_().replace('$', '')
        i = s.find(part, pos)
        rec.check(i >= 0, 'list contains the names of its elements in order')
        pos = i + len(part)
    rec.check(list(P) == list(G), 'list of the elements')
    rec.event('list')
    rec.event('predefined group')
    rec.sig('group', k, len(G))


def general(rng, rec):
    """Matrices that have no name are printed."""
    import qsymm
    from qsymm.groups import pretty_print_pge
    d = int(gen.choice(rng, [0, 1, 2, 3, 4, 5]))
    if d == 0:
        g = qsymm.PointGroupElement(np.empty((0, 0)), bool(rng.integers(2)), bool(rng.integers(2)), None)
        for latex, full in it.product((False, True), repeat=2):
            s = pretty_print_pge(g, full=full, latex=latex)
            rec.check(isinstance(s, str) and len(s) > 0, 'operator without momenta')
        rec.event('no dimension')
        rec.sig('0D')
        return
    if d in (1, 2, 3):
        A = gen.unimodular(rng, d, steps=3, size=1)
        if np.allclose(A @ A.T, np.eye(d)):
            rec.skip('orthogonal')
        rec.event('not orthogonal')
        arg = gen.choice(rng, [ta.array, np.array, sympy.ImmutableMatrix])(A.tolist())
    else:
        A = np.eye(d, dtype=int)[rng.permutation(d)] * rng.choice([1, -1], d)[:, None]
        arg = A if rng.random() < .5 else ta.array(A.tolist())
        if rng.random() < .4:
            A = gen.orthogonal(rng, d)
            arg = A
        if np.array_equal(A, np.eye(d)) or np.array_equal(A, -np.eye(d)):
            rec.skip('trivial')
        rec.event('4D')
    conj, anti = bool(rng.integers(2)), bool(rng.integers(2))
    rec.note(R=arg)
    g = qsymm.PointGroupElement(arg, conj, anti, None)
    az = {(True, False): 'T', (True, True): 'P', (False, True): 'C', (False, False): ''}[conj, anti]
    for latex in (False, True):
        for full in (False, True):
            s = pretty_print_pge(g, full=full, latex=latex)
            body = s.strip('$')
            if full:
                body = body[body.index('R = ') + 4:]
            else:
                tail = re.search(r'\\mathcal\{([TPC])\}\s*$' if latex else r'\s([TPC])\s*$', body)
                rec.check((tail[1] if tail else '') == az, 'character', text=s)
            z = numbers(body)
            rec.check(len(z) == d * d and np.max(np.abs(np.array(z).reshape(d, d) - A)) < .0051, 'matrix is printed', text=s, want=A)
    rec.sig('matrix', d, conj, anti)


def generator(rng, rec):
    import qsymm
    from qsymm.groups import pretty_print_cgg
    d = int(gen.choice(rng, [0, 2, 3, 3, 3, 3]))
    n = None
    R = None
    if d == 2:
        R = 1j * np.array([[0, -1], [1, 0]]) * float(gen.choice(rng, [1, 2, .5]))
        rec.event('generator 2D')
    elif d == 3:
        n = gen.choice(rng, [np.eye(3)[rng.integers(3)], rng.integers(-1, 2, 3).astype(float), rng.normal(size=3), -np.eye(3)[rng.integers(3)]])
        if not np.any(n):
            n = np.array([1., -1, 0])
        if rng.random() < .3:
            n = n * float(gen.choice(rng, [.1, 3, 20]))
        R = 1j * np.array([[0, -n[2], n[1]], [n[2], 0, -n[0]], [-n[1], n[0], 0]])
        rec.event('generator 3D')
    elif rng.random() < .3:
        R = np.zeros((int(rng.integers(1, 4)),) * 2)
    U = None
    u = rng.random()
    if u < .7 or d == 0:
        m = int(rng.integers(1, 5))
        U = gen.hermitian(rng, m)
        if rng.random() < .3:
            U = np.round(U.real)
        if rng.random() < .15 and d:
            U = np.zeros((m, m))
    rec.note(R=R, U=U, n=n)
    g = qsymm.ContinuousGroupGenerator(R, U)
    dig = (ev.digest(g.R), ev.digest(g.U))
    hasR = R is not None and np.any(R)
    hasU = U is not None and np.max(np.abs(U)) > 1e-8
    p = Printer()
    g._repr_pretty_(p, False)
    for latex, s in ((False, pretty_print_cgg(g)), (False, str(g)), (False, p.s), (True, pretty_print_cgg(g, latex=True)), (True, g._repr_latex_())):
        rec.check(isinstance(s, str), 'name is a string')
        body = s
        if latex:
            rec.check(s.startswith('$') and s.endswith('$'), 'LaTeX delimiters', text=s)
            body = s[1:-1]
        b = body.replace('{{', '{').replace('}}', '}')
        i = re.search(r'(?:^|\n|\\\\|\s)L = ', b)
        rec.check((i is not None) == hasU, 'conserved quantity is printed', text=s)
        head = b[:i.start()] if i else b
        if hasU:
            rec.event('conserved quantity')
            z = numbers(b[i.end():])
            rec.check(len(z) == U.size, 'all entries of the conserved quantity', text=s)
            dev = np.array(z).reshape(U.shape) - U
            rec.check(max(np.max(np.abs(dev.real)), np.max(np.abs(dev.imag))) < (.0056 if latex else .00051) * max(1, 1),
                      'entries of the conserved quantity', text=s, want=U)
        if hasR:
            arg = re.search(r'R_\{?(?:\\phi|ϕ)\}? = R(?:\\left)?\((?:\\phi|ϕ)(?:, (\[.*?\]))?(?:\\right)?\)', head, re.S)
            rec.check(arg is not None, 'rotation is printed', text=s)
            rec.check((arg[1] is not None) == (d == 3), 'axis is printed', text=s)
            if d == 3:
                v = vector(arg[1])
                c = v @ n / np.linalg.norm(v) / np.linalg.norm(n)
                rec.check(c > 1 - 2e-4, 'axis read back', got=v, want=n, cos=c)
            if not latex:
                rec.check(head[:arg.start()].rstrip(' ').endswith('\n'), 'rotation is on its own line', text=s)
            eq = head[:arg.start()]
            rec.check(('H(R_ϕ⋅k)' in eq) if not latex else (r'H(R_{\phi}\mathbf{k})' in eq), 'action of the rotation', text=s)
            e = re.findall(r'e\^\{|exp\(', eq)
            rec.check(bool(e) == hasU, 'action of the conserved quantity', text=s)
            if hasU:
                sg = re.findall(r'(-?)\s*i\s*(?:\\phi|ϕ)', eq)
                rec.check(sg == ['-', ''], 'signs of the transformation', text=s, got=sg)
        else:
            rec.check('R_' not in b, 'no rotation is printed', text=s)
            rec.check('[' in head and '= 0' in head, 'commutator is printed', text=s)
    rec.check(isinstance(repr(g), str), 'detailed representation')
    rec.check((ev.digest(g.R), ev.digest(g.U)) == dig, 'printing changes nothing')
    rec.sig('cgg', d, None if n is None else tuple(np.round(n, 2)), None if U is None else len(U), hasR, hasU)


FAMILIES = {
    'element': (element, 6000, 120000),
    'predefined': (predefined, 40, 600),
    'general': (general, 800, 10000),
    'generator': (generator, 2500, 40000),
}
