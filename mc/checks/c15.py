"""C15: the algebra of gate objects against reference matrices."""
import copy
import itertools
import math
import re

import numpy as np

from mc import pq, ref, sims

ID = 'C15'
RULE = ('all gate classes and objects x a grid of angles over several periods with wrap-around neighbours: matrix, unitarity, inverse, identity test, text; all pairs of angles per class: merge, equality, '
        'hash; all pairs of a catalogue of all gates: equality, hash, merge; meta gates (dagger, control, tensor, flip, uniformly controlled, classical) by the commands they emit. Non-trivial: not the identity')
ASSUMPTIONS = ['angles closer than 1e-11 to each other (modulo the period) are the same angle', 'hashes of matrix gates are only compared for identical entries']
CHUNK = 2

PI = math.pi
ROT = ['Rx', 'Ry', 'Rz', 'Rxx', 'Ryy', 'Rzz']
PHASE = ['R', 'Ph']


def grid(tier):
    T = tier != 'quick'
    g = [k * PI / 8 for k in range(-40, 81, 1 if T else 2)]
    g += [.1, 1.234567, -2.5, 3.3333, 7.77, 1e-3, 1e-9, -1e-9, 1e-13, -1e-13, 0.0, -0.0, 50.5, -123.25, 1e4 + .5, 7, -3]
    g += [b + e for b in (2 * PI, 4 * PI, -4 * PI, 6 * PI, 8 * PI) for e in (1e-13, -1e-13, 1e-6, -1e-6)]
    if T:
        g += [k * .37 for k in range(-60, 61)]
    return g


def period(name):
    return 2 * PI if name in PHASE else 4 * PI


def dist(a, b, p):
    d = (a - b) % p
    return min(d, p - d)


def cases(tier):
    out = []
    for name in ROT + PHASE:
        out += [['angle', name, i, tier] for i in range(len(grid(tier)))]
    out += [['fixed'], ['matrixgate'], ['meta'], ['flip'], ['classical'], ['controlled']]
    out += [['ucr', name, tier] for name in ('UniformlyControlledRy', 'UniformlyControlledRz')]
    out += [['pairs', i] for i in range(len(catalogue()))]
    return out


def run(case, ctx):
    return globals()['run_' + case[0]](case, ctx)


def M(x):
    return np.asarray(x, dtype=complex)


def text_angles(s):
    return [float(x) for x in re.findall(r'[-+]?\d+\.?\d*(?:e[-+]?\d+)?', s)]


def run_angle(case, ctx):
    from projectq import ops as O
    from projectq.ops import NotMergeable

    _, name, i, tier = case
    cls, p = getattr(O, name), period(name)
    G = grid(tier)
    a = G[i]
    g = cls(a)
    want = ref.ANGLE[name](a)
    n = len(want)

    def fail(what, msg):
        ctx.fail(f'{name}({a!r}) {what}', msg)
    ctx.tr()
    tol = 1e-9 * max(1, abs(a) * 1e-3)
    if M(g.matrix).shape != want.shape or not np.allclose(M(g.matrix), want, atol=tol):
        fail('matrix', f'{g.matrix.tolist()}, expected {want.tolist()}')
    if not np.allclose(M(g.matrix) @ M(g.matrix).conj().T, np.eye(n), atol=1e-9):
        fail('matrix', 'not unitary')
    inv = O.get_inverse(g)
    if not np.allclose(M(inv.matrix), want.conj().T, atol=tol) or type(inv) is not cls:
        fail('inverse', f'{inv}')
    if not (O.get_inverse(inv) == g):
        fail('inverse of inverse', f'{O.get_inverse(inv)}')
    ident = O.is_identity(g)
    if ident and not np.allclose(want, np.eye(n), atol=1e-9):
        fail('is_identity', 'True')
    m0 = g.get_merged(inv)
    if not np.allclose(M(m0.matrix), np.eye(n), atol=1e-9) or not m0 == cls(0) or O.is_identity(m0) != O.is_identity(cls(0)):
        fail('merged with its inverse', f'{m0}, is_identity {O.is_identity(m0)}')
    # the same angle, some periods away
    for k in (-3, -1, 1, 2, 5):
        h = cls(a + k * p)
        if dist(a + k * p, a, p) < 1e-13 and not (h == g and g == h and hash(h) == hash(g) and str(h) == str(g) and not h != g):
            # rounding of the sum itself can move the angle
            if round(a % p, 11) == round((a + k * p) % p, 11) and abs((a % p) * 1e12 - round((a % p) * 1e12)) < .3:
                fail(f'+ {k} periods', f'{h} != {g}')
    # text
    s = str(g)
    if not s.startswith(name + '(') or len(text_angles(s)) != 1 or dist(text_angles(s)[0], a, p) > 1e-11 * max(1, abs(a)):
        fail('text', s)
    if hasattr(g, 'to_string'):
        t = g.to_string(symbols=True)
        v = text_angles(t)
        unit = PI if '\u03c0' in t else 1
        if len(v) != 1 or dist(v[0] * unit, a, p) > 6e-4 * PI + 1e-9 * abs(a):
            fail('symbolic text', t)
        if str(g.to_string(symbols=False)) != s:
            fail('plain text', g.to_string(symbols=False))
    t = g.tex_str()
    v = text_angles(t.replace('_', ' '))
    unit = PI if 'pi' in t else 1
    if not t.startswith(name) or len(v) != 1 or dist(v[0] * unit, a, p) > 6e-4 * PI + 1e-9 * abs(a):
        fail('tex text', t)
    c = copy.deepcopy(g)
    if not (c == g and hash(c) == hash(g)):
        fail('copy', 'differs')
    if name in ('Rxx', 'Ryy', 'Rzz'):
        interchange(g, want, fail)
    # all other angles of the class
    for b in G:
        h = cls(b)
        ctx.trace()
        m = g.get_merged(h)
        if not np.allclose(M(m.matrix), ref.ANGLE[name](a + b), atol=1e-9 * max(1, (abs(a) + abs(b)) * 1e-3)) or type(m) is not cls:
            fail(f'merged with {b!r}', f'{m}')
        if O.is_identity(m) and dist(a + b, 0, p) > 1e-9:
            fail(f'merged with {b!r}', 'claims to be the identity')
        d = dist(a, b, p)
        if g == h and d > 1e-9:
            fail(f'== {b!r}', 'True')
        if d > 1e-10 * max(1, abs(a), abs(b)) and (not g != h or str(g) == str(h)):
            fail(f'!= {b!r}', f'equal or the same text {g} {h}')
        if g == h and hash(g) != hash(h):
            fail(f'hash {b!r}', 'equal gates with different hashes')
        if (g == h) == (g != h) or (g == h) != (h == g):
            fail(f'== {b!r}', 'inconsistent')
        ctx.key((name, i, b))
    if g.angle != cls(a).angle or not np.allclose(M(g.matrix), want, atol=tol):
        fail('after all', 'the gate changed')
    for other in ROT + PHASE:
        if other != name:
            try:
                g.get_merged(getattr(O, other)(a))
            except NotMergeable:
                pass
            else:
                fail(f'merged with {other}', 'not refused')
            if g == getattr(O, other)(a):
                fail(f'== {other}', 'True')


def interchange(g, W, fail):
    """declared interchangeable qubits really are"""
    k = int(math.log2(len(W)))
    for grp in g.interchangeable_qubit_indices:
        for i, j in itertools.combinations(grp, 2):
            perm = list(range(k))
            perm[i], perm[j] = perm[j], perm[i]
            T = W.reshape((2,) * (2 * k))
            ax = [k - 1 - perm[k - 1 - x] for x in range(k)]
            T2 = np.transpose(T, ax + [k + x for x in ax]).reshape(W.shape)
            if not np.allclose(T2, W):
                fail('interchangeable qubits', f'{grp}')


def fixed():
    from projectq import ops as O

    return {'H': (O.H, ref.H, 'H'), 'X': (O.X, ref.X, 'X'), 'Y': (O.Y, ref.Y, 'Y'), 'Z': (O.Z, ref.Z, 'Z'), 'S': (O.S, ref.S, 'S'), 'T': (O.T, ref.T, 'T'), 'SqrtX': (O.SqrtX, ref.SQX, 'SqrtX'),
            'Swap': (O.Swap, ref.SWAP, 'Swap'), 'SqrtSwap': (O.SqrtSwap, ref.SQSWAP, 'SqrtSwap'), 'NOT': (O.NOT, ref.X, 'X'), 'Sdag': (O.Sdag, ref.S.conj(), None), 'Tdag': (O.Tdag, ref.T.conj(), None),
            'Sdagger': (O.Sdagger, ref.S.conj(), None), 'Tdagger': (O.Tdagger, ref.T.conj(), None)}


def run_fixed(case, ctx):
    from projectq import ops as O
    from projectq.ops import NotMergeable

    F = fixed()
    for name, (g, W, txt) in F.items():
        ctx.trace()
        ctx.tr()
        ctx.key(name)

        def fail(what, msg, name=name):
            ctx.fail(f'{name} {what}', msg)
        if not np.allclose(M(g.matrix), W) or M(g.matrix).shape != W.shape:
            fail('matrix', f'{g.matrix.tolist()}')
        inv = O.get_inverse(g)
        if not np.allclose(M(inv.matrix), W.conj().T):
            fail('inverse', f'{inv.matrix.tolist()}')
        if not (O.get_inverse(inv) == g and np.allclose(M(O.get_inverse(inv).matrix), W)):
            fail('inverse of inverse', f'{O.get_inverse(inv)}')
        if (inv == g) != np.allclose(W, W.conj().T):
            fail('== inverse', f'{inv == g}')
        if O.is_identity(g) or O.is_identity(inv):
            fail('is_identity', 'True')
        if txt and str(g) != txt:
            fail('text', str(g))
        interchange(g, W, fail)
        interchange(inv, W.conj().T, fail)
        c = copy.deepcopy(g)
        if not (c == g and hash(c) == hash(g) and not c != g):
            fail('copy', 'differs')
        for name2, (h, W2, _) in F.items():
            if (g == h) != (W.shape == W2.shape and np.allclose(W, W2)):
                fail(f'== {name2}', f'{g == h}')
            if g == h and hash(g) != hash(h):
                fail(f'hash {name2}', 'differ')
            if g != h and str(g) == str(h):
                fail(f'text {name2}', f'{g}')
            if (g == h) == (g != h):
                fail(f'!= {name2}', 'inconsistent')
            try:
                m = g.get_merged(h)
            except NotMergeable:
                pass
            else:
                if not np.allclose(M(m.matrix), W2 @ W):
                    fail(f'merged with {name2}', f'{m}')
            d = O.get_inverse(h)
            if (inv == d) != (g == h):
                fail(f'inverse == inverse of {name2}', f'{inv == d}')
        # matrix gates with the same matrix compare equal, others not
        if not (O.MatrixGate(W) == g) or O.MatrixGate(W * np.exp(.01j)) == g or O.MatrixGate(-W) == g:
            fail('as matrix gate', 'equality')


def run_matrixgate(case, ctx):
    from projectq import ops as O

    r = np.random.RandomState(3)
    mats = [ref.X, ref.H, ref.S, ref.SWAP, ref.SQSWAP, np.eye(2), np.eye(4), 1j * np.eye(2), [[1, 2], [3, 4]], [[0, 1j], [-1j, 0]], np.diag([1, 1, 1, -1]), r.normal(size=(8, 8)) + 1j * r.normal(size=(8, 8)), ref.H.tolist(),
            np.matrix(ref.T), ((0, 1), (1, 0))]
    for i, m in enumerate(mats):
        g = O.MatrixGate(m)
        W = np.asarray(m, dtype=complex)
        ctx.key(i)
        ctx.trace()
        if not np.array_equal(M(g.matrix), W):
            ctx.fail(f'matrix gate {i}', 'matrix')
        if not np.allclose(M(O.get_inverse(g).matrix) @ W, np.eye(len(W))):
            ctx.fail(f'matrix gate {i}', 'inverse')
        if O.is_identity(g) and not np.allclose(W, np.eye(len(W))):
            ctx.fail(f'matrix gate {i}', 'is_identity')
        h = O.MatrixGate()
        h.matrix = m
        if not (h == g and g == h and hash(g) == hash(h) and str(g) == str(h) and not g != h):
            ctx.fail(f'matrix gate {i}', 'set later differs')
        near, far = W.copy(), W.copy()
        near[0, 0] += 1e-14
        far[-1, -1] += 1e-7
        if not O.MatrixGate(near) == g or O.MatrixGate(far) == g or g == O.MatrixGate(far):
            ctx.fail(f'matrix gate {i}', 'tolerance')
        for j, m2 in enumerate(mats):
            W2 = np.asarray(m2, dtype=complex)
            if (g == O.MatrixGate(m2)) != (W.shape == W2.shape and np.allclose(W, W2, atol=1e-11)):
                ctx.fail(f'matrix gate {i} == {j}', f'{g == O.MatrixGate(m2)}')
        # what the caller does with the matrix it passed in does not matter
        mm = np.array(W)
        k = O.MatrixGate(mm)
        mm[0, 0] = 17
        if not k == g:
            ctx.fail(f'matrix gate {i}', 'shares the matrix of the caller')
        c = copy.deepcopy(g)
        c.matrix = W * 1j
        if not np.array_equal(M(g.matrix), W):
            ctx.fail(f'matrix gate {i}', 'copy shares the matrix')


def record(f, n=4, controls=0):
    """ops emitted by f(engine, qubits), as (class name, gate, target positions, control positions, values)"""
    from projectq import MainEngine

    rec = pq.Recorder()
    eng = MainEngine(rec, [])
    q = list(eng.allocate_qureg(n))
    pos = {x.id: k for k, x in enumerate(q)}
    k = len(rec.cmds)
    try:
        f(eng, q)
        out = [(c.gate, tuple(tuple(pos[x.id] for x in r) for r in c.qubits), tuple(sorted((pos[x.id], v) for x, v in zip(c.control_qubits, c.control_state)))) for c in rec.cmds[k:]]
    finally:
        for x in q:
            x.id = -1
        sims.sink(eng)
    return out


def run_controlled(case, ctx):
    from projectq import ops as O

    base = [O.X, O.Z, O.H, O.S, O.Rz(.3), O.R(.3), O.Swap, O.Sdag, O.Rxx(.5), O.MatrixGate(ref.SQX)]
    for g in base:
        k = 2 if isinstance(g, (type(O.Swap), O.Rxx)) else 1
        for n in (1, 2, 3):
            if n + k > 4:
                continue
            forms = [O.C(g, n), O.ControlledGate(g, n)] + [O.C(O.C(g, a), n - a) for a in range(1, n)] + [copy.deepcopy(O.C(g, n))]
            if n == 3:
                forms.append(O.C(O.C(O.C(g))))
            if g is O.X:
                forms += {1: [O.CNOT, O.CX], 2: [O.Toffoli, O.C(O.CNOT)], 3: [O.C(O.Toffoli)]}[n]
            if g is O.Z and n == 1:
                forms += [O.CZ]
            if isinstance(g, O.Rz) and n == 1:
                forms += [O.CRz(.3), O.CRz(.3 + 4 * PI)]
            for f in forms:
                ctx.trace()
                ctx.key((str(g), n))
                if not (f == forms[0] and forms[0] == f and hash(f) == hash(forms[0]) and str(f) == str(forms[0]) == 'C' * n + str(g) and not f != forms[0]):
                    ctx.fail(f'C^{n} {g}', f'{f} differs')
                if f == g or g == f or f == O.C(g, n + 1) or f == O.C(O.Y, n):
                    ctx.fail(f'C^{n} {g}', 'equals another gate')
                inv = O.get_inverse(f)
                if not (O.get_inverse(inv) == f) or not inv == O.C(O.get_inverse(g), n):
                    ctx.fail(f'C^{n} {g}', f'inverse {inv}')
                if O.is_identity(f):
                    ctx.fail(f'C^{n} {g}', 'is_identity')
                # the command it emits
                for order in itertools.permutations(range(4), n + k):
                    variants = [lambda e, q: f | tuple(q[i] for i in order)]
                    if k == 1 or n > 1:
                        variants.append(lambda e, q: f | ([q[i] for i in order[:n]],) + tuple(q[i] for i in order[n:]))
                    if n > 1:
                        variants.append(lambda e, q: f | ([q[order[0]]], [q[i] for i in order[1:n]]) + tuple(q[i] for i in order[n:]))
                    for v in variants:
                        got = record(v)
                        if len(got) != 1 or not got[0][0] == g or got[0][2] != tuple(sorted((i, '1') for i in order[:n])) or tuple(x for r in got[0][1] for x in r) not in (
                                [order[n:]] if k == 1 or not g.interchangeable_qubit_indices else [order[n:], order[:n - 1:-1]]):
                            ctx.fail(f'C^{n} {g} on {order}', f'emits {got}')
    # wrong number of control qubits
    for f, args in ((O.CNOT, lambda q: ([q[0], q[1]], q[2])), (O.Toffoli, lambda q: (q[0], [q[1], q[2]], q[3])), (O.CNOT, lambda q: (q[0],)), (O.Toffoli, lambda q: (q[0], q[1]))):
        try:
            got = record(lambda e, q: f | args(q))
        except Exception:  # noqa
            continue
        ctx.fail(f'{f} with a wrong number of controls', f'not refused: {got}')


def run_meta(case, ctx):
    from projectq import ops as O

    for g in [O.X, O.H, O.S, O.Rx(.3), O.Measure, O.Ph(.2), O.MatrixGate(ref.T)]:
        for form in (O.All(g), O.Tensor(g)):
            ctx.trace()
            ctx.key(str(g))
            if not form == O.Tensor(g) or hash(form) != hash(O.Tensor(g)) or form == O.Tensor(O.Y) or form == g or g == form:
                ctx.fail(f'All({g})', 'equality')
            if g is not O.Measure and not (O.get_inverse(form) == O.All(O.get_inverse(g)) and O.get_inverse(O.get_inverse(form)) == form):
                ctx.fail(f'All({g})', 'inverse')
            for idx in itertools.chain.from_iterable(itertools.permutations(range(4), k) for k in range(5)):
                for v in (lambda e, q: form | [q[i] for i in idx], lambda e, q: form | ([q[i] for i in idx],)):
                    got = record(v)
                    if [x[1] for x in got] != [((i,),) for i in idx] or any(not x[0] == g or x[2] for x in got):
                        ctx.fail(f'All({g}) on {idx}', f'emits {got}')
        for v in (lambda e, q: O.All(g) | (q[0], q[1]), lambda e, q: O.All(g) | q[0], lambda e, q: O.All(g) | ([q[0]], [q[1]])):
            try:
                got = record(v)
            except Exception:  # noqa
                continue
            ctx.fail(f'All({g})', f'not refused: {got}')
    # gates without an inverse of their own
    forms = [O.QFT, O.Entangle, O.StatePreparation([0, 1]), O.StatePreparation([1, 0]), O.BasicMathGate(_f1), O.BasicMathGate(_f2), O.QPE(O.X), O.QPE(O.Y), O.S, O.T, O.SqrtX, O.SqrtSwap]
    for a, b in itertools.product(forms, repeat=2):
        x, y = O.get_inverse(a), O.get_inverse(b)
        ctx.trace()
        if (x == y) != (a is b) or x == a or a == x or (x == y and hash(x) != hash(y)) or (x != y) == (x == y):
            ctx.fail(f'dagger of {a} and {b}', f'compare {x == y}, hash {hash(x) == hash(y)}')
        if not (O.get_inverse(x) == a):
            ctx.fail(f'dagger of {a}', f'inverse is {O.get_inverse(x)}')
        if a is b and not (copy.deepcopy(x) == x and str(a) in str(x) and str(a) != str(x)):
            ctx.fail(f'dagger of {a}', f'copy or text {x}')
    for g in forms:
        d = O.DaggeredGate(g)
        if O.is_identity(d) or not d == O.get_inverse(g):
            ctx.fail(f'dagger of {g}', 'identity or different')


def _f1(a):
    return (a,)


def _f2(a):
    return (-a,)


def run_flip(case, ctx):
    from projectq import ops as O

    for n in (1, 2, 3, 4):
        for v in range(2 ** n):
            bits = [v >> i & 1 for i in range(n)]
            forms = [v, bits, tuple(bits), [bool(b) for b in bits], ''.join(map(str, bits)), bits + [0, 0], np.array(bits), bits + [False]]
            for f in forms:
                g = O.FlipBits(f)
                ctx.trace()
                ctx.key((n, v))
                if not (g == O.FlipBits(v) and hash(g) == hash(O.FlipBits(v)) and not g != O.FlipBits(v) and O.get_inverse(g) == g) or g == O.FlipBits(v + 1) or str(g) == str(O.FlipBits(v + 1)):
                    ctx.fail(f'FlipBits({f})', 'equality')
                if O.is_identity(g) and v:
                    ctx.fail(f'FlipBits({f})', 'identity')
                got = record(lambda e, q: g | [q[i] for i in range(n - 1, -1, -1)])
                if [x[1] for x in got] != [((n - 1 - i,),) for i in range(n) if bits[i]] or any(not x[0] == O.X or x[2] for x in got):
                    ctx.fail(f'FlipBits({f})', f'emits {got}')
    for v in (lambda e, q: O.FlipBits(1) | (q[0], q[1]), lambda e, q: O.FlipBits(1) | ([q[0]], q[1])):
        try:
            got = record(v)
        except ValueError:
            continue
        ctx.fail('FlipBits on two registers', f'not refused: {got}')


def run_classical(case, ctx):
    from projectq import ops as O

    A, D, B = O.Allocate, O.Deallocate, O.Barrier
    gs = {'Allocate': A, 'Deallocate': D, 'Measure': O.Measure, 'Barrier': B, 'AllocateDirty': O.AllocateDirty, 'Flush': O.FlushGate()}
    for (m, a), (n, b) in itertools.product(gs.items(), repeat=2):
        ctx.trace()
        ctx.key((m, n))
        if (a == b) != (m == n) or (a != b) == (a == b) or (a == b and hash(a) != hash(b)) or (a != b and str(a) == str(b)):
            ctx.fail(f'{m} == {n}', f'{a == b}')
    for g, inv in ((A, D), (D, A), (O.AllocateDirty, D), (B, B)):
        if not O.get_inverse(g) == inv:
            ctx.fail(f'inverse of {g}', f'{O.get_inverse(g)}')
    for g in gs.values():
        if O.is_identity(g) or not copy.deepcopy(g) == g:
            ctx.fail(f'{g}', 'identity or copy')
    got = record(lambda e, q: O.Barrier | (q[0], [q[2], q[1]]))
    if len(got) != 1 or got[0][1] != ((0,), (2, 1)) or got[0][2]:
        ctx.fail('Barrier', f'emits {got}')


def run_ucr(case, ctx):
    from projectq import ops as O
    from projectq.ops import NotMergeable

    _, name, tier = case
    cls = getattr(O, name)
    other = getattr(O, 'UniformlyControlledRz' if name.endswith('y') else 'UniformlyControlledRy')
    vals = [0, .3, -1.1, 4 * PI - .2, 2 * PI, 9.5] + ([-.2, 4 * PI, 17, 1e-13] if tier != 'quick' else [4 * PI - 1e-13])
    vecs = [list(v) for k in (1, 2) for v in itertools.product(vals, repeat=k)] + [[.1 * i - 1 for i in range(4)], [2 * PI - i for i in range(4)], [0.] * 4]

    def mat(angles):
        return np.array([ref.rot(ref.Y if name.endswith('y') else ref.Z, a) for a in angles])

    def eff(g):
        return mat(g.angles)
    for a in vecs:
        g = cls(a)
        if len(g.angles) != len(a) or not np.allclose(eff(g), mat(a)):
            ctx.fail(f'{name}{a}', f'angles {g.angles}')
        if not np.allclose(eff(O.get_inverse(g)), mat([-x for x in a])) or not O.get_inverse(O.get_inverse(g)) == g:
            ctx.fail(f'{name}{a}', f'inverse {O.get_inverse(g)}')
        w = cls([x + 4 * PI for x in a])
        if not (w == g and hash(w) == hash(g) and str(w) == str(g)):
            ctx.fail(f'{name}{a}', f'{w} one period on')
        if O.is_identity(g) and not np.allclose(mat(a), mat([0] * len(a))):
            ctx.fail(f'{name}{a}', 'identity')
        tup = cls(tuple(a))
        if not tup == g:
            ctx.fail(f'{name}{a}', 'from a tuple')
        t = text_angles(str(g))
        if len(t) != len(a) or any(dist(x, y, 4 * PI) > 1e-10 for x, y in zip(t, a)):
            ctx.fail(f'{name}{a}', f'text {g}')
        for b in vecs:
            h = cls(b)
            ctx.trace()
            ctx.tr()
            ctx.key((name, str(a), str(b)))
            same = len(a) == len(b) and all(dist(x, y, 4 * PI) < 1e-11 for x, y in zip(a, b))
            if (g == h) != same or (g != h) == same or (g == h and hash(g) != hash(h)) or (str(g) == str(h)) != same:
                ctx.fail(f'{name}{a} == {b}', f'{g == h}')
            if g == other(b) or other(b) == g:
                ctx.fail(f'{name}{a} == other kind {b}', 'True')
            try:
                m = g.get_merged(h)
            except NotMergeable:
                if len(a) == len(b):
                    ctx.fail(f'{name}{a} merged with {b}', 'refused')
            else:
                if len(a) != len(b) or type(m) is not cls or not np.allclose(eff(m), mat([x + y for x, y in zip(a, b)])):
                    ctx.fail(f'{name}{a} merged with {b}', f'{m}')
            try:
                g.get_merged(other(b))
            except NotMergeable:
                pass
            else:
                ctx.fail(f'{name}{a} merged with other kind', 'not refused')


def catalogue():
    """(label, behaviour, constructor): gates that may be equal only if their behaviour is"""
    from projectq import ops as O
    from projectq.libs import math as LM

    out = [(f'fixed {n}', ('m', W), (lambda g=g: g)) for n, (g, W, _) in fixed().items()]
    for name in ROT + PHASE:
        for a in (0, .4, PI, 2 * PI, 2 * PI + .4, 3 * PI):
            out.append((f'{name} {a}', ('m', ref.ANGLE[name](a)), lambda name=name, a=a: getattr(O, name)(a)))
    for k, W in enumerate([ref.X, ref.H, ref.S, ref.SWAP, ref.rot(ref.X, .4), np.eye(2), np.eye(4), ref.T.conj(), ref.X * 1j]):
        out.append((f'matrix {k}', ('m', W), lambda W=W: O.MatrixGate(W)))
    for a in ([.1, .2], [.2, .1], [.1], [.1, .2, .3, .4]):
        out += [(f'ucry {a}', ('ry', tuple(a)), lambda a=a: O.UniformlyControlledRy(a)), (f'ucrz {a}', ('rz', tuple(a)), lambda a=a: O.UniformlyControlledRz(a))]
    for v in ([1, 0], [0, 1], [.6, .8], [.6, .8j], [1, 0, 0, 0]):
        out.append((f'prep {v}', ('prep', tuple(v)), lambda v=v: O.StatePreparation(v)))
    out += [('QFT', 'QFT', lambda: O.QFT), ('Entangle', 'Entangle', lambda: O.Entangle), ('QFT2', 'QFT', lambda: O.QFTGate()), ('Allocate', 'A', lambda: O.Allocate), ('Deallocate', 'D', lambda: O.Deallocate),
            ('Measure', 'M', lambda: O.Measure), ('Barrier', 'B', lambda: O.Barrier), ('Flush', 'F', lambda: O.FlushGate()), ('Dirty', 'AD', lambda: O.AllocateDirty)]
    for b in (0, 1, 5):
        out.append((f'flip {b}', ('flip', b), lambda b=b: O.FlipBits(b)))
    for f, n in ((_f1, 'f1'), (_f2, 'f2')):
        out.append((f'math {n}', ('math', n), lambda f=f: O.BasicMathGate(f)))
    for a in (-1, 0, 1, 2):
        out.append((f'add {a}', ('add', a), lambda a=a: LM.AddConstant(a)))
        out.append((f'sub {a}', ('add', -a), lambda a=a: LM.SubConstant(a)))
    for a, N in ((1, 3), (2, 3), (1, 5), (0, 3)):
        out.append((f'addmod {a} {N}', ('addmod', a, N), lambda a=a, N=N: LM.AddConstantModN(a, N)))
        out.append((f'mulmod {a} {N}', ('mulmod', a, N), lambda a=a, N=N: LM.MultiplyByConstantModN(a, N)))
    for n in ('AddQuantum', 'SubtractQuantum', 'ComparatorQuantum', 'DivideQuantum', 'MultiplyQuantum'):
        out.append((n, n, lambda n=n: getattr(LM, n)))
    out += [('inv AddQuantum', 'iA', lambda: O.get_inverse(LM.AddQuantum)), ('inv Divide', 'iD', lambda: O.get_inverse(LM.DivideQuantum)), ('inv Multiply', 'iM', lambda: O.get_inverse(LM.MultiplyQuantum))]
    for n, g in (('X', O.X), ('Z', O.Z), ('H', O.H), ('Rx', O.Rx(.4))):
        out += [(f'C{n}', ('C', n), lambda g=g: O.C(g)), (f'CC{n}', ('CC', n), lambda g=g: O.C(g, 2)), (f'All{n}', ('All', n), lambda g=g: O.All(g)), (f'QPE{n}', ('QPE', n), lambda g=g: O.QPE(g))]
    out += [('QAA 1', ('QAA', 1), lambda: O.QAA(_f1, _f2)), ('QAA 2', ('QAA', 2), lambda: O.QAA(_f2, _f1)), ('QAA 3', ('QAA', 3), lambda: O.QAA(_f1, _f1))]
    for k, t in enumerate(['X0', 'Y0', 'X0 Y1', 'Y0 X1', 'X1', '']):
        out.append((f'qop {t}', ('qop', k), lambda t=t: O.QubitOperator(t)))
        out.append((f'tev {t}', ('tev', k), lambda t=t: O.TimeEvolution(.5, O.QubitOperator(t))))
    out += [('qop -', ('qop', -1), lambda: O.QubitOperator('X0', -1)), ('tev 2', ('tev', -2), lambda: O.TimeEvolution(.75, O.QubitOperator('X0'))), ('qop none', ('qop', 'none'), lambda: O.QubitOperator())]
    for n, g in (('S', O.S), ('QFT', O.QFT), ('prep', O.StatePreparation([0, 1])), ('prep2', O.StatePreparation([1, 0])), ('math1', O.BasicMathGate(_f1)), ('math2', O.BasicMathGate(_f2)), ('qpe', O.QPE(O.X)), ('qpe2', O.QPE(O.Z))):
        out.append((f'dag {n}', ('m', ref.S.conj()) if n == 'S' else ('dag', n), lambda g=g: O.DaggeredGate(g)))
    return out


def run_pairs(case, ctx):
    from projectq.ops import NotMergeable

    C = catalogue()
    la, ba, fa = C[case[1]]
    a = fa()
    # a second object built the same way is equal, also after copying
    for b in (fa(), copy.deepcopy(a)):
        if not (a == b and b == a and not a != b and hash(a) == hash(b)):
            ctx.fail(f'{la} built twice', f'{a == b}, {b == a}, hash {hash(a) == hash(b)}')
    for lb, bb, fb in C:
        b = fb()
        ctx.trace()
        ctx.tr()
        ctx.key((la, lb))
        if isinstance(ba, tuple) and ba[0] == 'm' and isinstance(bb, tuple) and bb[0] == 'm':
            same = ba[1].shape == bb[1].shape and np.allclose(ba[1], bb[1])
            mg = 'MatrixGate' in (type(a).__name__, type(b).__name__)
        else:
            same, mg = (type(ba) is type(bb) and ba[0] != 'm' and bb[0] != 'm' and ba == bb), False
        if a == b and not same:
            ctx.fail(f'{la} == {lb}', 'True')
        if type(a) is type(b) and same and not a == b:
            ctx.fail(f'{la} == {lb}', 'False')
        if not same and not a != b:
            ctx.fail(f'{la} != {lb}', 'False')
        if a == b and not mg and hash(a) != hash(b):
            ctx.fail(f'{la} == {lb}', 'different hashes')
        try:
            m = a.get_merged(b)
        except NotMergeable:
            continue
        except AttributeError:
            continue
        if type(a) is not type(b):
            ctx.fail(f'{la} merged with {lb}', f'{m}')
