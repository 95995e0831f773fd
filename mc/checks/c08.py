"""C08: the full simulator's state is the exact state, for every layout, with or without fusion, with either kernel set."""
import ctypes
import itertools

import numpy as np

from mc import env, pq, ref, sims

ID = 'C08'
RULE = ('(place) every ordered target tuple of 1-5 of n qubits x every subset of the others as controls, generic unitary on a generic state, both kernel variants; (named) every named gate on every '
        'placement; (seq) all gate sequences up to a depth over overlapping targets/controls x fusion on/off; (hist) all histories of allocate/release/gate/entangle/flush up to a depth with all '
        'amplitudes read; (refuse) requests that must be refused. Non-trivial: the state changes')
ASSUMPTIONS = ['generic (full-support, fixed pseudo-random) unitaries and states stand for all matrices: the kernels are linear in both', 'amplitudes compared to 1e-9']
CHUNK = 4
_S = {}


def setup(tier):
    """compile the other kernel variants from the current sources"""
    jobs = {'nointrin': env.compile_core('_cppsim_nointrin', intrin=False), 'intrin': env.compile_core('_cppsim_intrin', intrin=True)}
    for k, j in jobs.items():
        _S[k] = env.finish(j)


def core(kind):
    """simulator class with the wanted compiled core"""
    if kind in ('cpp', 'py'):
        return kind
    if kind not in _S.setdefault('mod', {}):
        import importlib.util

        # the module must be called _cppsim for its init function, types are module-local
        spec = importlib.util.spec_from_file_location('_cppsim', _S[kind])
        try:
            m = importlib.util.module_from_spec(spec)
            spec.loader.exec_module(m)
        except ImportError as e:  # the type is already registered by another variant in this process
            raise RuntimeError(str(e))
        _S['mod'][kind] = m
        sims.module(kind, m)
    return kind


def unitary(k, seed=0):
    rng = np.random.RandomState(100 * k + seed)
    q, r = np.linalg.qr(rng.randn(2 ** k, 2 ** k) + 1j * rng.randn(2 ** k, 2 ** k))
    return q * (np.diag(r) / np.abs(np.diag(r)))


def vec(n, seed=0):
    rng = np.random.RandomState(7 + n + 50 * seed)
    v = rng.randn(2 ** n) + 1j * rng.randn(2 ** n)
    return v / np.linalg.norm(v)


def placements(n, kmax=5):
    for k in range(1, min(n, kmax) + 1):
        for t in itertools.permutations(range(n), k):
            rest = [q for q in range(n) if q not in t]
            for c in range(len(rest) + 1):
                for cs in itertools.combinations(rest, c):
                    yield list(t), list(cs)


SEQ = [  # matrix size and seed, targets, controls (on 6 qubits)
    (1, 0, (0,), ()), (1, 1, (0,), (1,)), (1, 2, (1,), (0,)), (1, 3, (2,), (1, 0)), (2, 0, (0, 1), ()), (2, 1, (2, 0), (3,)), (1, 4, (4,), (3,)), (3, 0, (3, 0, 5), ()),
    (1, 5, (5,), (0, 3)), (4, 0, (1, 4, 2, 0), ()), (5, 0, (5, 0, 4, 1, 3), ()), (1, 6, (3,), (5, 4, 2)), (2, 2, (4, 5), (0, 1)), ('flush',), ('query',), (5, 1, (1, 2, 3, 4, 5), (0,)),
    (4, 1, (5, 4, 3, 2), (1, 0))]


def cases(tier):
    T = tier != 'quick'
    out = []
    for variant in ('cpp', 'nointrin', 'intrin'):
        for n in (1, 2, 3, 4, 5) + ((6, 7) if T else (6,)):
            P = list(placements(n))
            if n == 6 and not T and variant != 'cpp':
                P = P[::3]
            size = 40
            for i in range(0, len(P), size):
                out.append(['place', variant, n, i, size, 3 if n == 6 and not T and variant != 'cpp' else 1])
        out.append(['threads', variant, 5])
        if T:
            out.append(['threads', variant, 6])
    for i in range(len(named())):
        out.append(['named', i])
    k = len(SEQ)
    for fusion in (True, False):
        for a in range(k):
            for b in range(k):
                out.append(['seq', 'cpp', fusion, [a, b], 1 if not T else 2 if fusion else 1])
    for a in range(k):
        for b in range(k):
            out.append(['seq', 'nointrin', True, [a, b], 1])
    L = hist_letters()
    for fusion in (False, True):
        for a in range(len(L)):
            for b in range(len(L)):
                out.append(['hist', fusion, [a, b], 3 if not T else 4])
    for i in range(len(refusals())):
        out.append(['refuse', i, False])
        out.append(['refuse', i, True])
    return out


def run(case, ctx):
    return globals()['run_' + case[0]](case, ctx)


def machine(kind, n, fusion, seed=0):
    """a simulator with n qubits in a generic state and scrambled memory; returns sim, eng, qureg, vector over ids"""
    sim = sims.make(core(kind), fusion)
    eng = sims.engine(sim)
    q = eng.allocate_qureg(n)
    eng.flush()
    v = vec(n, seed)
    return sim, eng, q, v


def close(got, want):
    return np.max(np.abs(got - want)) < 1e-9


def run_place(case, ctx, P=None):
    from projectq.ops import Command, MatrixGate

    _, variant, n, i, size, step = case
    sim, eng, q, v = machine(variant, n, False)
    P = P or list(placements(n))[::step][i:i + size]
    for t, c in P:
        M = unitary(len(t), len(c))
        sim.set_wavefunction(list(v), q)
        s = ref.State([x for x in range(n)][::-1], v.reshape((2,) * n + (1,)))
        s.apply(M, t, c)
        sim.receive([Command(eng, MatrixGate(M), tuple([q[x]] for x in t), [q[x] for x in c])])
        eng.flush()
        got = sims.vector(sim, [x.id for x in q])
        ctx.trace()
        ctx.tr()
        ctx.key((variant, n, tuple(t), tuple(c)))
        if not close(got, s.vector(range(n))):
            ctx.fail(f'place {variant} n={n} targets={t} controls={c}', f'the state differs by {np.max(np.abs(got - s.vector(range(n))))}')
            break
    ctx.outcome(f'place {variant} {n}')
    q = None
    sims.sink(eng)


def run_threads(case, ctx):
    """the same with several threads working on the state"""
    try:
        omp = ctypes.CDLL('libgomp.so.1')
    except OSError:
        return
    omp.omp_set_num_threads(3)
    try:
        P = list(placements(case[2]))
        run_place(['threads', case[1], case[2], 0, len(P), 1], ctx, P)
    finally:
        omp.omp_set_num_threads(1)


def named():
    from projectq import ops as O

    fixed = [('X', O.X, ref.X), ('Y', O.Y, ref.Y), ('Z', O.Z, ref.Z), ('H', O.H, ref.H), ('S', O.S, ref.S), ('T', O.T, ref.T), ('SqrtX', O.SqrtX, ref.SQX), ('Swap', O.Swap, ref.SWAP),
             ('SqrtSwap', O.SqrtSwap, ref.SQSWAP), ('Sdag', O.Sdag, ref.S.conj().T), ('Tdag', O.Tdag, ref.T.conj().T), ('SqrtXdag', O.get_inverse(O.SqrtX), ref.SQX.conj().T),
             ('SqrtSwapdag', O.get_inverse(O.SqrtSwap), ref.SQSWAP.conj().T), ('Matrix', O.MatrixGate(unitary(2, 9)), unitary(2, 9)), ('Entangle-like', O.MatrixGate(unitary(3, 9)), unitary(3, 9))]
    for nm in ('Rx', 'Ry', 'Rz', 'R', 'Ph', 'Rxx', 'Ryy', 'Rzz'):
        for a in (.3, np.pi, 2 * np.pi, 3 * np.pi + .1, -.7, 0):
            fixed.append((f'{nm}({a})', getattr(O, nm)(a), ref.ANGLE[nm](a)))
    return fixed


def run_named(case, ctx):
    from projectq.meta import Control

    name, g, M = named()[case[1]]
    k = int(np.log2(len(M)))
    n = k + 2
    for fusion in (False, True):
        sim, eng, q, v = machine('cpp', n, fusion)
        for t, c in placements(n):
            if len(t) != k:
                continue
            sim.set_wavefunction(list(v), q)
            s = ref.State(list(range(n))[::-1], v.reshape((2,) * n + (1,)))
            s.apply(M, t, c)
            args = tuple(q[x] for x in t) if k > 1 else q[t[0]]
            with Control(eng, [q[x] for x in c]):
                g | args
            eng.flush()
            got = sims.vector(sim, [x.id for x in q])
            ctx.trace()
            ctx.tr()
            ctx.key((name, tuple(t), tuple(c)))
            if not close(got, s.vector(range(n))):
                ctx.fail(f'named {name} targets={t} controls={c}', 'wrong state')
                break
        q = None
        sims.sink(eng)


def run_seq(case, ctx):
    from projectq.ops import Command, FlushGate, MatrixGate

    _, variant, fusion, prefix, more = case
    n = 6
    order = [3, 0, 5, 2, 4, 1]  # memory order
    sim, eng, q, v = machine(variant, n, fusion)
    mats = {}

    def step(op, s):
        if op[0] == 'flush':
            eng.flush()
        elif op[0] == 'query':
            p = sim.get_probability('10', [q[4], q[1]])
            w = s.vector(range(n))
            idx = np.arange(2 ** n)
            want = np.sum(np.abs(w[(idx >> 4 & 1 == 1) & (idx >> 1 & 1 == 0)]) ** 2)
            return abs(p - want) < 1e-9
        else:
            k, sd, t, c = op
            M = unitary(k, sd)
            s.apply(M, t, c)
            sim.receive([Command(eng, MatrixGate(M), tuple([q[x]] for x in t), [q[x] for x in c])])
        return True
    mem = np.zeros(2 ** n, dtype=complex)
    idx = np.arange(2 ** n)
    pos = np.zeros(2 ** n, dtype=int)
    for p, x in enumerate(order):
        pos |= (idx >> x & 1) << p
    mem[pos] = v
    for tail in itertools.product(range(len(SEQ)), repeat=more):
        w = prefix + list(tail)
        sim.set_wavefunction(list(mem), [q[x] for x in order])
        s = ref.State(list(range(n))[::-1], v.reshape((2,) * n + (1,)))
        ok = True
        for a in w:
            ok &= step(SEQ[a], s)
            ctx.tr()
        got = sims.vector(sim, [x.id for x in q])
        ctx.trace()
        ctx.key((variant, fusion, tuple(w)))
        ctx.state(np.round(got, 8).tobytes())
        if not ok or not close(got, s.vector(range(n))):
            ctx.fail(f'seq {variant} fusion={fusion} {[SEQ[a] for a in w]}', 'wrong state' if ok else 'wrong probability')
            break
    ctx.outcome(f'seq {variant} {fusion}')
    q = None
    sims.sink(eng)


# ---------- histories of allocation, release and gates
def hist_letters():
    return ['alloc', 'free0', 'free1', 'free2', 'X0', 'X1', 'Xlast', 'U01', 'C10', 'undo', 'flush']


def run_hist(case, ctx):
    _, fusion, prefix, more = case
    L = hist_letters()
    for tail in itertools.product(range(len(L)), repeat=more):
        if hist([L[a] for a in prefix + list(tail)], fusion, ctx) is False:
            return


def hist(w, fusion, ctx):
    """Two qubits to begin with. 'freeK' releases the K-th oldest live qubit: allowed iff it is classical."""
    from projectq.ops import Allocate, C, Deallocate, MatrixGate, X

    sim = sims.make('cpp', fusion)
    eng = sims.engine(sim)
    live = [eng.allocate_qubit(), eng.allocate_qubit()]
    s = ref.State()
    s.psi = np.ones(1, dtype=complex)
    for q in live:
        s.alloc(q[0].id)
    U, V = unitary(2, 3), unitary(1, 8)
    sig = f'hist fusion={fusion} {" ".join(w)}'
    applied = []
    for op in w:
        ctx.tr()
        ids = [q[0].id for q in live]
        if op == 'alloc':
            if len(live) >= 5:
                return
            live.append(eng.allocate_qubit())
            s.alloc(live[-1][0].id)
        elif op.startswith('free'):
            k = int(op[4])
            if k >= len(live):
                return
            p = s.prob(ids[k], 1)
            classical = p < 1e-9 or p > 1 - 1e-9
            if classical:
                live.pop(k)[0].__del__()
                s.drop(ids[k], int(p > .5))
                applied = []
            else:
                before = None
                # a qubit in superposition: refused, and the state is unharmed
                from projectq.ops import Command, DeallocateQubitGate

                try:
                    sim.receive([Command(eng, DeallocateQubitGate(), ([live[k][0]],))])
                    ctx.fail(sig, 'a qubit in superposition was released')
                    return False
                except RuntimeError:
                    pass
        elif op[0] == 'X':
            k = -1 if op == 'Xlast' else int(op[1])
            if k >= len(live) or not live:
                return
            X | live[k]
            s.apply(ref.X, [ids[k]])
            applied.append((ref.X, [ids[k]], []))
        elif op in ('U01', 'C10'):
            if len(live) < 2:
                return
            if op == 'U01':
                MatrixGate(U) | (live[0], live[1])
                s.apply(U, [ids[0], ids[1]])
                applied.append((U, [ids[0], ids[1]], []))
            else:
                C(MatrixGate(V)) | (live[-1], live[0])
                s.apply(V, [ids[0]], [ids[-1]])
                applied.append((V, [ids[0]], [ids[-1]]))
        elif op == 'undo':
            from projectq.meta import Control

            by = {q[0].id: q for q in live}
            while applied:
                M, t, c = applied.pop()
                M = M.conj().T
                with Control(eng, [by[x][0] for x in c]):
                    MatrixGate(M) | tuple(by[x][0] for x in t)
                s.apply(M, t, c)
        else:
            eng.flush()
    eng.flush()
    ids = [q[0].id for q in live]
    ctx.trace()
    ctx.key(sig)
    got = sims.vector(sim, ids)
    want = s.vector(ids) if ids else s.psi.reshape(-1)
    ctx.state(np.round(got, 8).tobytes())
    bad = None
    if not close(got, want):
        bad = f'state {np.round(got, 4)}, expected {np.round(want, 4)}'
    elif abs(np.linalg.norm(got) - 1) > 1e-9:
        bad = 'not normalised'
    elif ids:
        reg = [q[0] for q in live]
        for x in range(2 ** len(ids)):
            bits = ''.join(str(x >> i & 1) for i in range(len(ids)))
            if abs(sim.get_amplitude(bits, reg) - want[x]) > 1e-9:
                bad = f'amplitude of {bits}'
            if abs(sim.get_amplitude(bits[::-1], reg[::-1]) - want[x]) > 1e-9:
                bad = f'amplitude of {bits} reversed'
            if abs(sim.get_probability(bits, reg) - abs(want[x]) ** 2) > 1e-9:
                bad = f'probability of {bits}'
    reg = None
    while live:
        q = live.pop()
        q[0].id = -1
    sims.sink(eng)
    if bad:
        ctx.fail(sig, bad)
        return False


# ---------- refusals
def refusals():
    from projectq import ops as O

    def U(k):
        return O.MatrixGate(unitary(k, 5))
    return [
        ('6-qubit gate', lambda e, q, s: U(6) | tuple(q[:6]), Exception),
        ('2-qubit matrix on one qubit', lambda e, q, s: U(2) | q[0], Exception),
        ('1-qubit matrix on two qubits', lambda e, q, s: U(1) | (q[0], q[1]), Exception),
        ('3-qubit matrix on 2 qubits', lambda e, q, s: U(3) | (q[0], q[1]), Exception),
        ('release in superposition', lambda e, q, s: s.receive([O.Command(e, O.DeallocateQubitGate(), ([q[0]],))]), RuntimeError),
        ('allocate twice', lambda e, q, s: s.receive([O.Command(e, O.AllocateQubitGate(), ([q[0]],))]), RuntimeError),
        ('controlled measurement', lambda e, q, s: s.receive([O.Command(e, O.MeasureGate(), ([q[0]],), controls=[q[1]])]), ValueError),
        ('gate without matrix', lambda e, q, s: O.QFT | q[:3], Exception),
        ('set_wavefunction on some qubits', lambda e, q, s: s.set_wavefunction([1, 0, 0, 0], q[:2]), RuntimeError),
        ('set_wavefunction too short', lambda e, q, s: s.set_wavefunction([1, 0], q), Exception),
        ('set_wavefunction too long', lambda e, q, s: s.set_wavefunction([1] + [0] * 255, q), Exception),
        ('amplitude of some qubits', lambda e, q, s: s.get_amplitude('00', q[:2]), RuntimeError),
    ]


def run_refuse(case, ctx):
    label, f, exc = refusals()[case[1]]
    sim, eng, q, v = machine('cpp', 7, case[2])
    sim.set_wavefunction(list(v), q)
    got = None
    try:
        f(eng, q, sim)
        eng.flush()
    except Exception as e:  # noqa
        got = e
    ctx.trace()
    ctx.tr()
    ctx.key(label)
    after = sims.vector(sim, [x.id for x in q])
    if not isinstance(got, exc):
        ctx.fail(f'refuse {label} fusion={case[2]}', f'not refused with {exc.__name__}: {got!r}')
    elif not close(after, v):
        ctx.fail(f'refuse {label} fusion={case[2]}', 'the refused request changed the state')
    q = None
    sims.sink(eng)
