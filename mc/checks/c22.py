"""C22: algorithm building blocks produce the documented states and unitaries."""
import itertools
import math

import numpy as np

from mc import pq, ref, sims

ID = 'C22'
RULE = ('building blocks: state preparation for all vectors over {0,1,-1,i} on 1-2 qubits, {0,1,-1} on 3, shapes on 4, tiny and very different amplitudes; uniformly controlled rotations for all angle tuples over a grid with '
        '0-2 choice qubits, shapes with 3-4; QFT on 1-6 qubits; entangle, bit flips (every integer, list and string form), phase estimation of every exactly representable phase and of gates, matrices and functions with '
        '1-4 ancillas, amplitude amplification of 6 algorithms x sets of marked states, grids of one-qubit matrices; x placement on the qubits x contexts (plain, 1-2 controls with values, inverse, dagger, undo, '
        'repetition, uncomputation) x compilers (simulator with the default chain, two restricted gate sets, a linear chip). The complete operator on the documented inputs is compared. '
        'Non-trivial: a block that is not the identity')
ASSUMPTIONS = ['textbook definitions in mc/ref.py; operators are compared up to one global phase (controlled versions fix it); blocks that need |0> inputs (state preparation, phase estimation) are compared on these']
CHUNK = 4
PI = math.pi

H, X, Y, Z, I2 = ref.H, ref.X, ref.Y, ref.Z, ref.I2


def kron(*ms):
    """kron with the first factor on the least significant qubit"""
    M = np.eye(1)
    for m in ms:
        M = np.kron(m, M)
    return M


def embed(U, where, n):
    st = ref.State.inputs(list(range(n)))
    st.apply(U, where)
    return st.matrix(list(range(n)))


def ctl(U):
    """control on qubit 0, U on the rest"""
    k = U.shape[0]
    M = np.eye(2 * k, dtype=complex)
    M[1::2, 1::2] = U
    return M


class Block:
    def __init__(self, name, sizes, matrix, emit, zero=(), gate=None, need=()):
        self.name, self.sizes, self.matrix, self.emit, self.zero, self.gate = name, sizes, matrix, emit, zero, gate
        self.n = sum(sizes)


def gate_block(name, gate, sizes, matrix, zero=()):
    return Block(name, sizes, matrix, lambda eng, regs: gate | (regs[0] if len(regs) == 1 else tuple(regs)), zero, gate)


# ------------------------------------------------------------ the blocks
def gm(gate, n):
    from mc.checks import c05

    return c05.gm(gate, n)


def prep_matrix(v):
    from mc.checks import c05

    return c05.prep_matrix(v)


def b_prep(v):
    from projectq.ops import StatePreparation

    v = np.array([complex(x) for x in v])
    v = v / np.linalg.norm(v)
    n = int(math.log2(len(v)))
    return gate_block(f'prep', StatePreparation(list(v)), [n], prep_matrix(v), zero=tuple(range(n)))


def b_ucr(axis, angles):
    from projectq import ops as O

    k = int(math.log2(len(angles)))
    M = np.zeros((2 ** (k + 1),) * 2, dtype=complex)
    for c, a in enumerate(angles):
        r = ref.rot({'y': Y, 'z': Z}[axis], a)
        for i in (0, 1):
            for j in (0, 1):
                M[c | i << k, c | j << k] = r[i, j]
    return gate_block('ucr', getattr(O, 'UniformlyControlledR' + axis)(list(angles)), [k, 1], M)


def b_qft(n):
    from projectq.ops import QFT

    N = 1 << n
    F = np.array([[np.exp(2j * PI * x * y / N) for x in range(N)] for y in range(N)]) / math.sqrt(N)
    return gate_block('qft', QFT, [n], F[[ref.bitrev(y, n) for y in range(N)], :])


def b_qft_swapped(n):
    """with the swaps that the documentation leaves to the user: the discrete Fourier transform"""
    from projectq.ops import QFT, Swap

    N = 1 << n
    F = np.array([[np.exp(2j * PI * x * y / N) for x in range(N)] for y in range(N)]) / math.sqrt(N)

    def emit(eng, regs):
        QFT | regs[0]
        for i in range(n // 2):
            Swap | (regs[0][i], regs[0][n - 1 - i])
    return Block('dft', [n], F, emit)


def b_entangle(n):
    from projectq.ops import Entangle

    M = np.zeros((1 << n, 1 << n))
    full = (1 << n) - 1
    for b in range(1 << n):
        rest = b & ~1
        # H on qubit 0, then X on the others when it is 1
        s = 1 / math.sqrt(2)
        M[rest, b] += s
        M[(rest ^ (full & ~1)) | 1, b] += -s if b & 1 else s
    return gate_block('entangle', Entangle, [n], M)


def b_flip(spec, n):
    from projectq.ops import FlipBits

    if isinstance(spec, int):
        bits = [spec >> i & 1 for i in range(n)] if spec >= 0 else [1 - ((-spec - 1) >> i & 1) for i in range(n)]
    else:
        bits = [int(x in (1, '1', True)) for x in spec]
        bits += [0] * (n - len(bits))
    m = sum(b << i for i, b in enumerate(bits[:n]))
    M = np.zeros((1 << n, 1 << n))
    for b in range(1 << n):
        M[b ^ m, b] = 1
    return gate_block('flip', FlipBits(spec), [n], M)


def b_matrix(a, b, c, d):
    from projectq.ops import MatrixGate

    M = np.exp(1j * d) * ref.rot(Z, a) @ ref.rot(Y, b) @ ref.rot(Z, c)
    return gate_block('matrix', MatrixGate(M), [1], M)


# phase estimation: name -> (number of system qubits, gate or function, matrix)
def qpe_units():
    from projectq import ops as O
    from projectq.meta import Control

    def frac(k, m):
        return 2 * PI * k / m
    U = {}
    for m in (2, 4, 8, 16):
        for k in range(m):
            if m == 2 or k % 2:
                U[f'Ph{k}/{m}'] = (1, lambda k=k, m=m: O.Ph(frac(k, m)), lambda k=k, m=m: np.eye(2) * np.exp(1j * frac(k, m)))
                U[f'R{k}/{m}'] = (1, lambda k=k, m=m: O.R(frac(k, m)), lambda k=k, m=m: np.diag([1, np.exp(1j * frac(k, m))]))
    U['Rz.7'] = (1, lambda: O.Rz(.7), lambda: ref.rot(Z, .7))
    U['Ry1'] = (1, lambda: O.Ry(1.), lambda: ref.rot(Y, 1.))
    U['Rx7/8'] = (1, lambda: O.Rx(frac(7, 8)), lambda: ref.rot(X, frac(7, 8)))
    for n in ('X', 'Y', 'Z', 'H', 'S', 'T'):
        U[n] = (1, lambda n=n: getattr(O, n), lambda n=n: {'X': X, 'Y': Y, 'Z': Z, 'H': H, 'S': np.diag([1, 1j]), 'T': np.diag([1, np.exp(.25j * PI)])}[n])
    U['Tdag'] = (1, lambda: O.Tdag, lambda: np.diag([1, np.exp(-.25j * PI)]))
    U['mat'] = (1, lambda: O.MatrixGate(np.exp(.3j) * ref.rot(Y, .5) @ ref.rot(Z, PI / 4)), lambda: np.exp(.3j) * ref.rot(Y, .5) @ ref.rot(Z, PI / 4))
    U['QFT2'] = (2, lambda: O.QFT, lambda: ref.qft(2))
    U['QFT1'] = (1, lambda: O.QFT, lambda: ref.qft(1))
    U['TE'] = (2, lambda: O.TimeEvolution(.4, O.QubitOperator('X0 Y1')), lambda: ref.expm_h(ref.pauli_matrix({((0, 'X'), (1, 'Y')): 1.}, 2), .4))
    U['UCRz'] = (2, lambda: O.UniformlyControlledRz([.4, 1.1]), lambda: np.diag([np.exp(-.2j), np.exp(-.55j), np.exp(.2j), np.exp(.55j)]))

    def f_par(q, time):
        O.CNOT | (q[0], q[1])
        O.Ph(2 * PI * time * .125) | q[1]
        O.CNOT | (q[0], q[1])
    U['f:ph'] = (2, lambda: f_par, lambda: np.eye(4) * np.exp(.25j * PI))

    def f_zz(q, time):
        O.CNOT | (q[0], q[1])
        O.R(2 * PI * time * 3 / 8) | q[1]
        O.CNOT | (q[0], q[1])
    U['f:zz'] = (2, lambda: f_zz, lambda: np.diag([1, np.exp(.75j * PI), np.exp(.75j * PI), 1]))

    def f_x(q, time):
        O.Rx(time * .9) | q[0]
        O.Ph(time * .3) | q[0]
    U['f:rx'] = (1, lambda: f_x, lambda: np.exp(.3j) * ref.rot(X, .9))

    def f_cr(q, time):
        with Control(q[0].engine, q[0]):
            O.R(time * PI / 4) | q[1]
    U['f:cr'] = (2, lambda: f_cr, lambda: np.diag([1, 1, 1, np.exp(.25j * PI)]))
    return U


_U = {}


def b_qpe(name, n):
    from projectq.ops import QPE

    if not _U:
        _U.update(qpe_units())
    k, make, mat = _U[name]
    U = np.array(mat(), dtype=complex)
    N, S = 1 << n, 1 << k
    pw = [np.linalg.matrix_power(U, j) for j in range(N)]
    M = np.zeros((N * S, N * S), dtype=complex)
    for y in range(N):
        A = sum(np.exp(-2j * PI * j * y / N) * pw[j] for j in range(N)) / N
        # the binary fraction is read with the first ancilla as the most significant digit
        anc = ref.bitrev(y, n)
        for i in range(S):
            for j in range(S):
                M[anc | i << n, j << n] = A[i, j]
    return gate_block('qpe', QPE(make()), [n, k], M, zero=tuple(range(n)))


# amplitude amplification
def algs():
    from projectq import ops as O
    from projectq.meta import Control

    def a_h(eng, q):
        O.All(O.H) | q

    def a_ry(eng, q):
        for i, x in enumerate(q):
            O.Ry(.5 + .4 * i) | x

    def a_ent(eng, q):
        O.Ry(1.1) | q[0]
        for i in range(1, len(q)):
            O.CNOT | (q[i - 1], q[i])
            O.Rz(.3 * i) | q[i]
            O.H | q[i]

    def a_ctl(eng, q):
        O.All(O.H) | q
        with Control(eng, q[0]):
            O.All(O.S) | q[1:]
        O.All(O.Ry(PI / 4)) | q[1:]

    def a_x(eng, q):
        O.X | q[0]
        O.All(O.Rx(.8)) | q

    def a_prep(eng, q):
        n = len(q)
        v = np.arange(1, (1 << n) + 1) * np.exp(.3j * np.arange(1 << n))
        O.StatePreparation(list(v / np.linalg.norm(v))) | q
    return {'h': a_h, 'ry': a_ry, 'ent': a_ent, 'ctl': a_ctl, 'x': a_x, 'prep': a_prep}


def alg_matrix(name, n):
    st = ref.State.inputs(list(range(n)))
    S = np.diag([1, 1j])
    if name == 'h':
        for i in range(n):
            st.apply(H, [i])
    elif name == 'ry':
        for i in range(n):
            st.apply(ref.rot(Y, .5 + .4 * i), [i])
    elif name == 'ent':
        st.apply(ref.rot(Y, 1.1), [0])
        for i in range(1, n):
            st.apply(X, [i], [i - 1])
            st.apply(ref.rot(Z, .3 * i), [i])
            st.apply(H, [i])
    elif name == 'ctl':
        for i in range(n):
            st.apply(H, [i])
        for i in range(1, n):
            st.apply(S, [i], [0])
        for i in range(1, n):
            st.apply(ref.rot(Y, PI / 4), [i])
    elif name == 'x':
        st.apply(X, [0])
        for i in range(n):
            st.apply(ref.rot(X, .8), [i])
    elif name == 'prep':
        v = np.arange(1, (1 << n) + 1) * np.exp(.3j * np.arange(1 << n))
        return prep_matrix(v / np.linalg.norm(v))
    return st.matrix(list(range(n)))


def marker(marks, n):
    """An oracle that flips the ancilla for the marked states."""
    from projectq.meta import Compute, Control, Uncompute
    from projectq.ops import X as XG

    def oracle(eng, q, anc):
        for m in marks:
            with Compute(eng):
                for i in range(n):
                    if not m >> i & 1:
                        XG | q[i]
            with Control(eng, q):
                XG | anc
            Uncompute(eng)
    return oracle


def b_qaa(name, n, marks):
    from projectq.ops import QAA

    A = alg_matrix(name, n)
    N = 1 << n
    zero = np.zeros((N, N))
    zero[0, 0] = 1
    G = A @ (2 * zero - np.eye(N)) @ A.conj().T
    O = np.zeros((2 * N, 2 * N))
    for b in range(N):
        for a in (0, 1):
            O[b | (a ^ (b in marks)) << n, b | a << n] = 1
    return gate_block('qaa', QAA(algs()[name], marker(marks, n)), [n, 1], kron(G, I2) @ O)


BUILD = {'prep': b_prep, 'ucr': b_ucr, 'qft': b_qft, 'dft': b_qft_swapped, 'entangle': b_entangle, 'flip': b_flip, 'matrix': b_matrix, 'qpe': b_qpe, 'qaa': b_qaa}


def unjson(x):
    if isinstance(x, list) and len(x) == 3 and x[0] == 'c':
        return complex(x[1], x[2])
    if isinstance(x, list):
        return [unjson(y) for y in x]
    return x


# ------------------------------------------------------------ contexts
# name -> number of controls; the program, and the reference program
def program(ctxname, b, eng, regs, ctls, spare):
    from projectq.meta import Compute, Control, Dagger, Loop, Uncompute
    from projectq.ops import CNOT, H as HG, get_inverse

    if ctxname == 'plain':
        b.emit(eng, regs)
    elif ctxname.startswith('ctl'):
        with Control(eng, ctls, ctrl_state=ctxname[3:]):
            b.emit(eng, regs)
    elif ctxname == 'nested':
        with Control(eng, ctls[0], ctrl_state='0'):
            with Control(eng, ctls[1]):
                b.emit(eng, regs)
    elif ctxname == 'dagger':
        with Dagger(eng):
            b.emit(eng, regs)
    elif ctxname == 'daggerctl':
        with Control(eng, ctls):
            with Dagger(eng):
                b.emit(eng, regs)
    elif ctxname == 'inverse':
        get_inverse(b.gate) | (regs[0] if len(regs) == 1 else tuple(regs))
    elif ctxname == 'loop':
        with Loop(eng, 3):
            b.emit(eng, regs)
    elif ctxname == 'undo':
        b.emit(eng, regs)
        with Dagger(eng):
            b.emit(eng, regs)
    elif ctxname == 'undoctl':
        b.emit(eng, regs)
        with Control(eng, ctls):
            with Dagger(eng):
                b.emit(eng, regs)
    elif ctxname == 'compute':
        last = [r for r in regs if len(r)][-1][0]
        with Compute(eng):
            b.emit(eng, regs)
        CNOT | (last, spare)
        HG | spare
        Uncompute(eng)


def reference(ctxname, b, t, c, spare):
    M = b.matrix
    D = M.conj().T

    def u(m, cc=(), vv=()):
        return ('u', m, t, list(cc), list(vv))
    if ctxname == 'plain':
        return [u(M)]
    if ctxname.startswith('ctl') and ctxname != 'daggerctl':
        return [u(M, c, [int(x) for x in ctxname[3:]])]
    if ctxname == 'nested':
        return [u(M, c, [0, 1])]
    if ctxname in ('dagger', 'inverse'):
        return [u(D)]
    if ctxname == 'daggerctl':
        return [u(D, c, [1] * len(c))]
    if ctxname == 'loop':
        return [u(M)] * 3
    if ctxname == 'undo':
        return []
    if ctxname == 'undoctl':
        # leaves b's result where the control is 0
        return [u(M, c, [0])]
    if ctxname == 'compute':
        off = sum(b.sizes[:max(i for i, s in enumerate(b.sizes) if s)])
        return [u(M), ('u', X, [spare], [t[off]], [1]), ('u', H, [spare], [], []), u(D)]


NCTL = {'ctl1': 1, 'ctl0': 1, 'ctl11': 2, 'ctl01': 2, 'nested': 2, 'daggerctl': 1, 'undoctl': 1}
CTX_ALL = ['plain', 'ctl1', 'ctl0', 'ctl01', 'nested', 'dagger', 'daggerctl', 'inverse', 'loop', 'undo', 'undoctl', 'compute']
CTX_ZERO = ['plain', 'ctl1', 'ctl0', 'ctl01', 'nested', 'undo', 'undoctl']


# ------------------------------------------------------------ compilers
def avail_sets():
    def cx(name, nc, n):
        return nc == 0 and n == 1 or nc == 1 and n == 2 and name == 'XGate'

    def rot(name, nc, n):
        return nc == 0 and name in ('Ry', 'Rz', 'Ph', 'Rx') or nc == 1 and n == 2 and name == 'XGate'

    def emu(name, nc, n):
        return name not in ('QPE', 'QAA', 'StatePreparation', 'QFTGate', 'EntangleGate', 'UniformlyControlledRy', 'UniformlyControlledRz', 'DaggeredGate')
    return {'cx': cx, 'rot': rot, 'emu': emu}


def chain(kind, n):
    """(engines, availability, mapper)"""
    import projectq.setups.decompositions as D
    from projectq.cengines import AutoReplacer, DecompositionRuleSet, InstructionFilter, LocalOptimizer, TagRemover
    from projectq.ops import ClassicalInstructionGate

    if kind == 'linear':
        from projectq.ops import CNOT
        from projectq.setups import linear

        eng = linear.get_engine_list(num_qubits=n + 5, cyclic=False, one_qubit_gates='any', two_qubit_gates=(CNOT,))
        return eng, None, [e for e in eng if hasattr(e, 'current_mapping')][0]
    pred = avail_sets()[kind]

    def avail(eng, cmd):
        if isinstance(cmd.gate, ClassicalInstructionGate):
            return True
        if '0' in cmd.control_state:
            return False
        nc = len(cmd.control_qubits)
        return bool(pred(type(cmd.gate).__name__, nc, nc + sum(len(r) for r in cmd.qubits)))
    return [AutoReplacer(DecompositionRuleSet(modules=[D])), TagRemover(), InstructionFilter(avail), LocalOptimizer(5)], avail, None


def run_block(case, ctx):
    _, kind, args, comp, contexts, orders = case
    b = BUILD[kind](*unjson(args))
    if not np.allclose(b.matrix, np.eye(len(b.matrix))):
        ctx.key((kind, repr(args), comp))
    for cx in contexts:
        for od in orders:
            if one(b, kind, args, comp, cx, od, ctx) is False:
                return


def one(b, kind, args, comp, cx, od, ctx):
    from projectq import MainEngine

    nc = NCTL.get(cx, 0)
    n = b.n + nc + 1
    order = {'up': list(range(n)), 'down': list(range(n))[::-1], 'odd': list(range(1, n, 2)) + list(range(0, n, 2)), 'rot': list(range(1, n)) + [0]}[od]
    label = f'{kind} {cx}'
    what = f'{kind}({str(args)[:150]}) in context {cx}, placed {od}, compiled for {comp}'
    sim = mapper = rec = None
    if comp == 'sim':
        sim = sims.make('cpp')
        eng = MainEngine(sim)
    else:
        engines, avail, mapper = chain(comp, n)
        rec = pq.Recorder()
        eng = MainEngine(rec, engines)
    q = list(eng.allocate_qureg(n))
    ids = [x.id for x in q]
    pos = [q[i] for i in order]
    regs, k = [], 0
    for s in b.sizes:
        regs.append(pos[k:k + s])
        k += s
    ctls, spare = pos[k:k + nc], pos[-1]
    t, c = [x.id for r in regs for x in r], [x.id for x in ctls]
    zero = [t[i] for i in b.zero]
    partners = []
    err = None
    try:
        if sim is not None:
            # every input that may be anything is entangled with a partner, so one run shows the whole operator
            from projectq.ops import CNOT, H as HG

            free = [x for x in q if x.id not in zero]
            partners = list(eng.allocate_qureg(len(free)))
            for x, y in zip(free, partners):
                HG | y
                CNOT | (y, x)
        program(cx, b, eng, regs, ctls, spare)
        eng.flush()
    except Exception as e:  # noqa
        import traceback

        err = traceback.format_exc(limit=-4)
        sims.sink(eng)
    ctx.trace()
    if err:
        ctx.fail(f'{label}: {err.strip().splitlines()[-1][:60]}', f'{what}: {err}')
        for x in q + partners:
            x.id = -1
        return False
    st = [('alloc', i) for i in ids] + reference(cx, b, t, c, spare.id)
    want = ref.run_stream(st, inputs=ids, outputs=ids)
    cols = [x for x in range(1 << n) if not any(x >> ids.index(z) & 1 for z in zero)]
    W = want[()][:, cols]
    msg = None
    try:
        if sim is not None:
            v = sims.vector(sim, ids + [y.id for y in partners])
            ctx.tr(len(v))
            # column of partner value p: input with the free qubits at p
            V = v.reshape(1 << len(partners), 1 << n).T * math.sqrt(1 << len(partners))
            fpos = [ids.index(x.id) for x in free]
            idx = [sum((p >> i & 1) << fpos[i] for i in range(len(fpos))) for p in range(1 << len(fpos))]
            G = V[:, [idx.index(x) for x in cols]]
        else:
            ctx.tr(len(rec.cmds))
            got = pq.compiled_result(rec.cmds, ids, None if mapper is None else mapper.current_mapping, gate_matrix=gm)
            if set(got) != {()}:
                msg = 'measurements or released garbage'
            else:
                G = got[()][:, cols]
            if avail is not None and any(not avail(None, x) for x in rec.cmds):
                msg = 'a command that is not in the gate set'
    except ref.StreamError as e:
        msg = str(e)
    if msg is None and not ref.same_op(G, W, up_to_phase=True, tol=2e-6):
        msg = 'wrong operation'
    sims.sink(eng)
    for x in q + partners:
        x.id = -1
    ctx.outcome(f'{kind} {comp}')
    ctx.state((kind, repr(args), cx, od))
    if msg:
        ctx.fail(f'{label}: {msg}', f'{what}: {msg}')
        return False


# ------------------------------------------------------------ whole algorithms, read through probabilities
def run_amplify(case, ctx):
    """QAA after the algorithm: the marked weight follows sin^2((2j+1) theta)."""
    _, name, n, marks = case
    from projectq import MainEngine
    from projectq.meta import Loop
    from projectq.ops import H as HG, QAA, X as XG

    A = alg_matrix(name, n)
    p0 = sum(abs(A[m, 0]) ** 2 for m in marks)
    theta = math.asin(math.sqrt(min(1, p0)))
    for j in range(0, 5):
        sim = sims.make('cpp')
        eng = MainEngine(sim)
        q = eng.allocate_qureg(n)
        a = eng.allocate_qubit()
        XG | a
        HG | a
        algs()[name](eng, q)
        if j:
            with Loop(eng, j):
                QAA(algs()[name], marker(marks, n)) | (q, a)
        HG | a
        XG | a
        eng.flush()
        p = sum(eng.backend.get_probability(''.join(str(m >> i & 1) for i in range(n)), q) for m in marks)
        pa = eng.backend.get_probability('0', a)
        ctx.trace()
        ctx.tr()
        if abs(p - math.sin((2 * j + 1) * theta) ** 2) > 1e-6 or abs(pa - 1) > 1e-6:
            ctx.fail('amplify', f'{name} on {n} qubits, marked {marks}, {j} rounds: probability {p}, expected {math.sin((2 * j + 1) * theta) ** 2}; ancilla back with {pa}')
        ctx.key((name, n, repr(marks), j))
        sims.sink(eng)
        for x in list(q) + list(a):
            x.id = -1
    ctx.outcome('amplify')


def run_estimate(case, ctx):
    """Measured digits of an exactly representable phase, on an eigenvector."""
    _, name, n, eig = case
    from projectq import MainEngine
    from projectq.ops import All, Measure, QPE, StatePreparation

    if not _U:
        _U.update(qpe_units())
    k, make, mat = _U[name]
    w, V = np.linalg.eig(np.array(mat(), dtype=complex))
    phi = np.angle(w[eig]) / (2 * PI) % 1
    y = phi * (1 << n)
    ctx.trace()
    if abs(y - round(y)) > 1e-9:
        ctx.outcome('not representable')
        return
    y = int(round(y)) % (1 << n)
    v = V[:, eig] / np.linalg.norm(V[:, eig])
    eng = MainEngine(sims.make('cpp', seed=eig))
    anc = eng.allocate_qureg(n)
    s = eng.allocate_qureg(k)
    StatePreparation(list(v)) | s
    QPE(make()) | (anc, s)
    All(Measure) | anc
    eng.flush()
    digits = ''.join(str(int(x)) for x in anc)
    ctx.key(case)
    ctx.outcome('phase read')
    if int(digits, 2) != y:
        ctx.fail('estimate', f'{name}: eigenvalue phase {phi} on {n} ancillas is read as {digits}, expected {y:0{n}b}')
    All(Measure) | s
    eng.flush()
    sims.sink(eng)
    for x in list(anc) + list(s):
        x.id = -1


def run_refuse(case, ctx):
    """Malformed requests must end in an error and not in a wrong circuit."""
    _, what, args = case
    from projectq import MainEngine
    from projectq import ops as O

    args = unjson(args)
    eng = MainEngine(sims.make('cpp'))
    q = list(eng.allocate_qureg(4))
    eng.flush()
    try:
        if what == 'prep':
            O.StatePreparation(args[0]) | q[:args[1]]
        elif what == 'prep2':
            O.StatePreparation(args[0]) | (q[:args[1]], q[args[1]:])
        elif what == 'ucr':
            getattr(O, 'UniformlyControlledR' + args[0])(args[1]) | (q[:args[2]], q[3])
        elif what == 'flip':
            O.FlipBits(1) | (q[:1], q[1:])
        eng.flush()
        done = True
    except Exception as e:  # noqa
        done = False
        ctx.outcome(f'refused: {type(e).__name__}')
    sims.sink(eng)
    for x in q:
        x.id = -1
    ctx.trace()
    ctx.key(case)
    if done:
        ctx.fail(f'accepted: {what}', f'{case} is accepted')


def cj(v):
    return [['c', complex(x).real, complex(x).imag] for x in v]


def vectors(tier):
    out = []
    for n, vals in ((1, [1, -1, 1j, 0]), (2, [1, -1, 1j, 0]), (3, [1, 0, -1] if tier == 'quick' else [1, 0, -1, -1j])):
        for v in itertools.product(vals, repeat=1 << n):
            nz = [x for x in v if x]
            if nz and (n < 3 or nz[0] == 1):
                out.append(v)
    return out


def shapes():
    """Vectors of special shapes."""
    out = []
    for n in (3, 4):
        N = 1 << n
        for i in range(N):
            out.append([1 if j == i else 0 for j in range(N)])
            out.append([1j if j == i else .5 if j == N - 1 - i else 0 for j in range(N)])
            out.append([(j + 1) * np.exp(1j * (i + 1) * j) for j in range(N)])
            out.append([1e-5 if j == i else 1 for j in range(N)])
    for n in (1, 2, 3):
        N = 1 << n
        for tiny in (1e-200, 1e-160, 1e-12, 1e-7, 1e-3):
            for i in range(N):
                out.append([tiny if j == i else 1 for j in range(N)])
                out.append([1 if j == i else tiny for j in range(N)])
                out.append([1 if j == i else tiny * 1j if j == (i ^ 1) else 0 for j in range(N)])
                out.append([1 if j == i else -tiny if j == (i + 1) % N else 0 for j in range(N)])
                if n > 1:
                    out.append([1 if j == i else -tiny if j == (i + 2) % N else 0 for j in range(N)])
    return out


def cases(tier):
    T = tier == 'thorough'
    out = []

    def add(kind, args, comp, contexts, orders=('up',)):
        out.append(['block', kind, args, comp, list(contexts), list(orders)])
    ALLO = ['up', 'down', 'odd', 'rot']
    for i, v in enumerate(vectors(tier)):
        n = len(v).bit_length() - 1
        a = [cj(v)]
        if n == 1:
            for comp in ('sim', 'cx', 'rot', 'emu', 'linear'):
                add('prep', a, comp, CTX_ZERO, ALLO)
        elif n == 2:
            add('prep', a, 'sim', CTX_ZERO, ['up', 'down'])
            add('prep', a, ('cx', 'rot', 'emu', 'linear')[i % 4], CTX_ZERO if T or i % 8 < 4 else ['plain', 'ctl0'], [ALLO[i % 4]])
        else:
            add('prep', a, 'sim', ['plain'], ['up'])
            add('prep', a, 'emu', ['plain'], ['rot'])
            if i % 8 == 0 or T:
                add('prep', a, ('cx', 'rot', 'linear')[i // 8 % 3], ['plain', 'ctl1'], ['down'])
                add('prep', a, 'sim', ['ctl0', 'undo', 'undoctl'], ['odd'])
    for i, v in enumerate(shapes()):
        n = len(v).bit_length() - 1
        add('prep', [cj(v)], 'sim', ['plain', 'ctl1', 'undo'] if n < 4 else ['plain', 'undo'], ['up', 'odd'])
        if i % 3 == 0:
            add('prep', [cj(v)], ('cx', 'rot', 'emu')[i // 3 % 3], ['plain'], ['rot'])
    # uniformly controlled rotations
    g = [0, .3, PI, 2 * PI, 5 * PI / 2, 4 * PI - .1]
    for axis in 'yz':
        for k, grid in ((0, g), (1, g), (2, g if T else [0, .3, 2 * PI, 3.7])):
            for i, v in enumerate(itertools.product(grid, repeat=1 << k)):
                a = [axis, list(v)]
                if k < 2:
                    for comp in ('sim', 'cx', 'rot', 'linear') if k == 0 or i % 3 == 0 else ('sim', 'rot'):
                        add('ucr', a, comp, CTX_ALL, ['up', 'down'] if comp == 'sim' else ['odd'])
                else:
                    add('ucr', a, 'sim', CTX_ALL if i % 4 == 0 else ['plain', 'ctl0', 'dagger'], ['up'])
                    add('ucr', a, ('cx', 'rot')[i % 2], ['plain', 'dagger'] if i % 8 else CTX_ALL, ['down'])
        for k in (3, 4):
            for f in (.1, .7):
                v = [f * i * i % 7 for i in range(1 << k)]
                add('ucr', [axis, v], 'sim', CTX_ALL if k < 4 else ['plain', 'ctl0', 'dagger', 'inverse'], ['up', 'odd'])
                add('ucr', [axis, v], 'rot', ['plain', 'dagger'], ['down'])
                for i in range(1 << k):
                    add('ucr', [axis, [1.3 if j == i else 0 for j in range(1 << k)]], 'emu' if i % 2 else 'sim', ['plain', 'inverse'], ['up'])
    for n in range(1, 7 if T else 6):
        for kind in ('qft', 'dft', 'entangle'):
            cs = [c for c in CTX_ALL if kind != 'dft' or c != 'inverse']
            small = [c for c in cs if NCTL.get(c, 0) < 2]
            for od in ALLO if n < 4 else ALLO[:2]:
                if n < 5:
                    add(kind, [n], 'sim', cs if n < 4 else small, [od])
                else:
                    add(kind, [n], 'sim', ['plain', 'ctl0', 'inverse'] if kind != 'dft' else ['plain'], [od])
                if n < 5:
                    for comp in ('cx', 'rot', 'emu', 'linear'):
                        add(kind, [n], comp, small if n < 4 else ['plain', 'dagger', 'ctl1'], [od])
    for n in range(1, 5):
        for x in [*range(-(1 << n) - 1, (1 << n) + 2)]:
            add('flip', [x, n], 'sim', [c for c in CTX_ALL if c != 'inverse' or True], ['up'] if n > 2 else ['up', 'down'])
        for w in itertools.product((0, 1), repeat=n):
            for form in (list(w), ''.join(map(str, w)), [bool(x) for x in w]):
                add('flip', [form, n], 'cx', ['plain', 'ctl0'], ['up'])
            if n > 1:
                add('flip', [list(w)[:-1], n], 'cx', ['plain'], ['down'])
    mg = [0, .4, PI / 2, PI, 3 * PI / 2, 5.1]
    for i, (a, b, c) in enumerate(itertools.product(mg, repeat=3)):
        for d in mg if T else (0, .4, PI):
            for comp in ('sim', 'cx', 'rot', 'linear') if T or i % 4 == 0 else ('rot', 'sim'):
                add('matrix', [a, b, c, d], comp, CTX_ALL if T or (i % 4 == 0 and comp in ('sim', 'rot')) else ['plain', 'ctl1', 'ctl01', 'daggerctl'], ['down' if i % 2 else 'up'])
    # phase estimation
    U = [f'{g}{k}/{m}' for m in (2, 4, 8, 16) for k in range(m) if m == 2 or k % 2 for g in ('Ph', 'R')]
    U += ['Rz.7', 'Ry1', 'Rx7/8', 'X', 'Y', 'Z', 'H', 'S', 'T', 'Tdag', 'mat', 'QFT2', 'QFT1', 'TE', 'UCRz', 'f:ph', 'f:zz', 'f:rx', 'f:cr']
    for u in U:
        two = u in ('QFT2', 'TE', 'UCRz', 'f:ph', 'f:zz', 'f:cr')
        if u == 'UCRz':
            continue  # a gate on two registers
        for n in (1, 2, 3, 4):
            add('qpe', [u, n], 'sim', CTX_ZERO if n < 3 else ['plain', 'ctl1', 'undo'] if n == 3 else ['plain'], ALLO[:2] if n < 4 else ['up'])
            if n < 3 or (n == 3 and not two):
                for comp in ('cx', 'rot', 'emu') if u not in ('Ph1/4',) else ('cx', 'rot', 'emu', 'linear'):
                    add('qpe', [u, n], comp, ['plain', 'ctl0'] if n < 3 else ['plain'], ['odd'])
            for e in range(4 if two else 2):
                out.append(['estimate', u, n, e])
    # amplitude amplification
    for name in ('h', 'ry', 'ent', 'ctl', 'x', 'prep'):
        for n in (1, 2, 3):
            sets = [s for r in range(0, (1 << n) + 1) for s in itertools.combinations(range(1 << n), r)]
            if n == 3:
                sets = [s for s in sets if len(s) == 1 or s in ((0, 7), (1, 2, 4), (3, 5, 6, 7))]
            for i, s in enumerate(sets):
                out.append(['amplify', name, n, list(s)])
                cs = CTX_ALL if name != 'prep' else ['plain', 'ctl1']
                add('qaa', [name, n, list(s)], 'sim', [c for c in cs if NCTL.get(c, 0) < 2 or n < 3], [ALLO[i % 4]]) if name != 'prep' else None
                if name != 'prep' and (n < 3 or i % 4 == 0):
                    add('qaa', [name, n, list(s)], ('cx', 'rot', 'emu', 'linear')[i % 4], ['plain', 'ctl0', 'dagger', 'loop'], ['up'])
    # refusals
    for n in (1, 2, 3):
        for ln in (1, 2, 3, 4, 5, 8):
            if ln != 1 << n:
                out.append(['refuse', 'prep', [[1 / math.sqrt(ln)] * ln, n]])
        N = 1 << n
        for f in (.5, .999, 1.001, 2, 0, 1 + 1e-8, 1 - 1e-8):
            out.append(['refuse', 'prep', [[f / math.sqrt(N)] * N, n]])
        if n < 3:
            out.append(['refuse', 'prep2', [[1 / 2] * 4, n]])
    for axis in 'yz':
        for k in (0, 1, 2):
            for ln in (1, 2, 3, 4, 5, 8):
                if ln != 1 << k:
                    out.append(['refuse', 'ucr', [axis, [.3] * ln, k]])
    out.append(['refuse', 'flip', []])
    return out


def run(case, ctx):
    globals()['run_' + case[0]](case, ctx)
