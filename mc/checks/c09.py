"""C09: probabilities, amplitudes, measurement, collapse, expectation values and operator application obey the Born rule."""
import itertools

import numpy as np

from mc import pq, ref, sims

ID = 'C09'
RULE = ('every state of a list (basis, GHZ, W, product, generic, with zeros, nearly classical) x memory order x simulator x every ordered group of qubits x every bit string / value tuple: '
        'probability, amplitude, collapse, measurement (with re-measurement) against the vector; shares of outcomes over all seeds of a window and the extreme random numbers; all Pauli strings and '
        'pairs of them as observables and operators. Non-trivial: more than one outcome is possible')
ASSUMPTIONS = ['shares of measurement outcomes are counted over the seeds 0..N-1 with a six-sigma allowance', 'probabilities to 1e-9']
CHUNK = 1


def states():
    """name -> vector; bit i of the index is qubit i"""
    w = np.exp(2j * np.pi / 3)
    out = {}

    def put(n, v):
        v = np.array(v, dtype=complex)
        out[n] = v / np.linalg.norm(v)
    put('zero', [1, 0, 0, 0, 0, 0, 0, 0])
    put('basis5', [0, 0, 0, 0, 0, 1j, 0, 0])
    put('last', [0, 0, 0, 0, 0, 0, 0, -1])
    put('ghz', [1, 0, 0, 0, 0, 0, 0, 1])
    put('ghz-mixed', [0, 0, 1, 0, 0, 1j, 0, 0])
    put('w', [0, 1, w, 0, w * w, 0, 0, 0])
    put('uniform', np.exp(1j * np.arange(8) ** 2))
    put('generic', [.1, .2j, -.3, .4 + .1j, .5, -.6j, .7, .05])
    put('zeros', [0, .6, 0, 0, .3j, .1, 0, 0])
    put('tilted', [1, .001, 0, .01j, .0001, 0, 1e-4, .02])
    put('one', [.6, .8j])
    put('two', [.5, 0, .1j, -.7])
    put('four', [(i * 7 % 5 - 1.5) + 1j * (i * 3 % 4) for i in range(16)])
    put('four-zeros', [0, 0, 0, 1, 0, 0, 2j, 0, 0, 0, 0, 0, 1, 0, 0, 0])
    return out


def ords(n, tier='quick'):
    P = list(itertools.permutations(range(n)))
    return P if n <= 3 else [P[0], P[-1], P[9], P[13]]


def cases(tier):
    T = tier != 'quick'
    out = []
    for kind in ('cpp', 'py'):
        for s, v in states().items():
            n = int(np.log2(len(v)))
            for o in ords(n) if kind == 'cpp' or T else ords(n)[-1:] + ords(n)[:1]:
                out.append(['query', kind, s, list(o)])
                out.append(['collapse', kind, s, list(o)])
            out.append(['twice', kind, s])
            out.append(['share', kind, s, 1500 if not T else 20000] if kind == 'cpp' else ['share', kind, s, 600 if not T else 5000])
            out.append(['extreme', kind, s])
            out.append(['mapped', kind, s])
        for s in ('generic', 'w', 'ghz-mixed') + (('uniform', 'zeros', 'tilted') if T else ()):
            for i in range(8):
                out.append(['paulis', kind, s, i])
        for s in ('generic', 'four'):
            out.append(['ops', kind, s])
        for i in range(len(refusals())):
            out.append(['refuse', kind, i])
    out.append(['refuse-mapped', 'cpp'])
    out.append(['refuse-mapped', 'py'])
    return out


def run(case, ctx):
    return globals()['run_' + case[0].replace('-', '_')](case, ctx)


def groups(n):
    for k in range(1, n + 1):
        yield from itertools.permutations(range(n), k)


def start(kind, v, order=None, seed=1, fusion=False, spare=False):
    """simulator holding v: qubit i at memory position order.index(i)"""
    n = int(np.log2(len(v)))
    sim = sims.make(kind, fusion, seed)
    eng = sims.engine(sim)
    q = eng.allocate_qureg(n)
    eng.flush()
    load(sim, q, v, order)
    return sim, eng, q


def load(sim, q, v, order=None):
    n = len(q)
    order = list(order or range(n))
    idx = np.arange(2 ** n)
    pos = np.zeros(2 ** n, dtype=int)
    for p, x in enumerate(order):
        pos |= (idx >> x & 1) << p
    mem = np.zeros(2 ** n, dtype=complex)
    mem[pos] = v
    sim.set_wavefunction(list(mem), [q[x] for x in order])


def bits_match(n, group, bits):
    idx = np.arange(2 ** n)
    m = np.ones(2 ** n, bool)
    for g, b in zip(group, bits):
        m &= (idx >> g & 1) == b
    return m


def project(v, group, bits):
    """normalised projection and probability"""
    n = int(np.log2(len(v)))
    w = np.where(bits_match(n, group, bits), v, 0)
    p = float(np.vdot(w, w).real)
    return (w / np.sqrt(p) if p > 0 else w), p


def now(sim, q):
    return sims.vector(sim, [x.id for x in q])


def close(a, b, tol=1e-9):
    return np.max(np.abs(a - b)) < tol


def run_query(case, ctx):
    _, kind, s, order = case
    v = states()[s]
    n = len(order)
    for fusion in (False, True):
        sim, eng, q = start(kind, v, order, fusion=fusion)
        sig = f'query {kind} {s} order={order} fusion={fusion}'
        if not close(now(sim, q), v):
            return ctx.fail(sig, 'set_wavefunction followed by cheat gives another state')
        for g in groups(n):
            for bits in itertools.product((0, 1), repeat=len(g)):
                _, p = project(v, g, bits)
                forms = [list(bits), ''.join(map(str, bits))]
                for b in forms:
                    ctx.tr()
                    r = sim.get_probability(b, [q[i] for i in g])
                    if abs(r - p) > 1e-9:
                        return ctx.fail(sig, f'probability of {b} on qubits {g} is {p}, reported {r}')
                    if len(g) == n:
                        a = sim.get_amplitude(b, [q[i] for i in g])
                        w = v[sum(x << i for i, x in zip(g, bits))]
                        if abs(a - w) > 1e-9:
                            return ctx.fail(sig, f'amplitude of {b} on qubits {g} is {w}, reported {a}')
                ctx.trace()
                if 1e-9 < p < 1 - 1e-9:
                    ctx.key((sig, g, bits))
        if not close(now(sim, q), v):
            return ctx.fail(sig, 'queries changed the state')
        # pending gates are applied before a query
        from projectq import ops as O

        O.X | q[0]
        r = sim.get_probability('1', [q[0]])
        want = project(v, [0], [0])[1]
        ctx.trace()
        if abs(r - want) > 1e-9:
            return ctx.fail(sig, f'after X the probability is {want}, reported {r}')
        q = None
        sims.sink(eng)


def run_collapse(case, ctx):
    _, kind, s, order = case
    v = states()[s]
    n = len(order)
    sim, eng, q = start(kind, v, order)
    for g in groups(n):
        if kind == 'py' and list(g) != sorted(g) and list(g) != sorted(g)[::-1]:
            continue
        for bits in itertools.product((0, 1), repeat=len(g)):
            sig = f'collapse {kind} {s} order={order} {g} -> {bits}'
            load(sim, q, v, order)
            w, p = project(v, g, bits)
            if 1e-13 < p < 1e-11:
                continue
            ctx.trace()
            ctx.tr()
            try:
                sim.collapse_wavefunction([q[i] for i in g], list(bits))
                ok = True
            except RuntimeError:
                ok = False
            got = now(sim, q)
            if p < 1e-12:
                if ok:
                    return ctx.fail(sig, 'a collapse to an outcome of probability zero is accepted')
                if not close(got, v):
                    return ctx.fail(sig, 'the refused collapse changed the state')
                continue
            ctx.key(sig)
            if not ok:
                return ctx.fail(sig, f'refused although the probability is {p}')
            ctx.state(np.round(got, 8).tobytes())
            if not close(got, w, 1e-7):
                return ctx.fail(sig, 'not the normalised projection')
            r = sim.get_probability(list(bits), [q[i] for i in g])
            if abs(r - 1) > 1e-9:
                return ctx.fail(sig, f'afterwards the outcome has probability {r}')
    q = None
    sims.sink(eng)


def measure(sim, eng, qs, one):
    from projectq.ops import Command, Measure, MeasureGate

    if one:
        sim.receive([Command(eng, MeasureGate(), (list(qs),))])
    else:
        for x in qs:
            Measure | x
        eng.flush()
    return tuple(int(x) for x in qs)


def run_twice(case, ctx):
    """measure group A, then group B, then A again"""
    _, kind, s = case
    v = states()[s]
    n = int(np.log2(len(v)))
    G = [g for g in groups(n) if len(g) <= 2 or len(g) == n and g in ((tuple(range(n))), tuple(range(n))[::-1])]
    if n == 4:
        G = [g for g in G if len(g) != 2 or g in ((0, 3), (2, 1), (3, 1))]
    order = ords(n)[len(ords(n)) // 2]
    sim, eng, q = start(kind, v, order, seed=5)
    for a in G:
        for b in G:
            if kind == 'py' and (len(a) + len(b)) % 2:
                continue
            for one in (True, False):
                sig = f'twice {kind} {s} {a} {b} {"one command" if one else "separately"}'
                load(sim, q, v, order)
                w = v
                for g in (a, b, a):
                    bits = measure(sim, eng, [q[i] for i in g], one)
                    ctx.tr()
                    w, p = project(w, g, bits)
                    if p < 1e-9:
                        return ctx.fail(sig, f'outcome {bits} of qubits {g} has probability {p}')
                    got = now(sim, q)
                    if not close(got, w, 1e-7):
                        return ctx.fail(sig, f'after outcome {bits} of {g} the state is not the normalised projection')
                if bits != tuple({i: x for i, x in zip(a, bits)}[i] for i in a):
                    return ctx.fail(sig, 'inconsistent')
                ctx.trace()
                ctx.key(sig)
    q = None
    sims.sink(eng)


def run_share(case, ctx):
    """outcomes over all seeds of a window"""
    _, kind, s, N = case
    v = states()[s]
    n = int(np.log2(len(v)))
    g = tuple(range(n))[::-1]
    for grp in (g, (n - 1,), (0,)):
        count = {}
        for seed in range(N):
            sim, eng, q = start(kind, v, None, seed=seed)
            bits = measure(sim, eng, [q[i] for i in grp], True)
            count[bits] = count.get(bits, 0) + 1
            q = None
            sims.sink(eng)
            ctx.tr()
        ctx.trace()
        ctx.key((s, kind, grp))
        for bits in itertools.product((0, 1), repeat=len(grp)):
            p = project(v, grp, bits)[1]
            f = count.get(bits, 0) / N
            tol = 6 * np.sqrt(max(p * (1 - p), 0) / N) + 1.5 / N
            if abs(f - p) > tol or p < 1e-15 and f > 0:
                return ctx.fail(f'share {kind} {s} {grp} {bits}', f'occurs for {f} of the seeds, probability {p}')


def run_extreme(case, ctx):
    """the smallest and largest random numbers (Python core; the compiled one has its own source)"""
    import random

    _, kind, s = case
    v = states()[s]
    n = int(np.log2(len(v)))
    old = random.random
    for r in (0.0, 5e-324, 2.0 ** -53, 1e-9, .5, 1 - 1e-9, 1 - 2.0 ** -53):
        for fac in (1, 1 - 1e-13, 1 + 1e-13):
            sim, eng, q = start(kind, v * fac, None)
            random.random = lambda: r
            try:
                bits = measure(sim, eng, list(q), True)
            finally:
                random.random = old
            ctx.trace()
            ctx.tr()
            p = project(v, range(n), bits)[1]
            ctx.key((s, kind, r))
            if p < 1e-15:
                return ctx.fail(f'extreme {kind} {s} {r}', f'outcome {bits} has probability {p}')
            q = None
            sims.sink(eng)


def run_mapped(case, ctx):
    """the same questions asked through a mapper"""
    from projectq.cengines import BasicMapperEngine

    _, kind, s = case
    v = states()[s]
    n = int(np.log2(len(v)))
    for perm in itertools.permutations(range(n)) if n <= 3 else ((2, 0, 3, 1), (3, 2, 1, 0)):
        class Perm(BasicMapperEngine):
            def __init__(self):
                super().__init__()
                self.current_mapping = {i: perm[i] for i in range(n)}

            def receive(self, command_list):
                for cmd in command_list:
                    if type(cmd.gate).__name__ == 'FlushGate':
                        self.send([cmd])
                    else:
                        self._send_cmd_with_mapped_ids(cmd)
        sim = sims.make(kind)
        eng = sims.engine(sim, [Perm()])
        q = eng.allocate_qureg(n)
        eng.flush()
        sim.set_wavefunction(list(v), q)
        sig = f'mapped {kind} {s} {perm}'
        m, st = sim.cheat()
        ctx.trace()
        ctx.tr()
        if perm != tuple(range(n)):
            ctx.key(sig)
        for x in range(2 ** n):
            pos = sum((x >> i & 1) << m[perm[i]] for i in range(n))
            if abs(st[pos] - v[x]) > 1e-9:
                return ctx.fail(sig, 'set_wavefunction put an amplitude in the wrong place')
            bits = [x >> i & 1 for i in range(n)]
            if abs(sim.get_amplitude(bits, q) - v[x]) > 1e-9 or abs(sim.get_probability(bits, q) - abs(v[x]) ** 2) > 1e-9:
                return ctx.fail(sig, f'amplitude or probability of {bits}')
        from projectq.ops import QubitOperator

        for i in range(n):
            z = sim.get_expectation_value(QubitOperator(f'Z{i}'), q)
            want = sum(abs(v[x]) ** 2 * (1 - 2 * (x >> i & 1)) for x in range(2 ** n))
            if abs(z - want) > 1e-9:
                return ctx.fail(sig, f'expectation value of Z{i}')
        if n > 1:
            sim.apply_qubit_operator(QubitOperator(f'X{n - 1}'), q)
            if abs(sim.get_amplitude([0] * n, q) - v[1 << n - 1]) > 1e-9:
                return ctx.fail(sig, 'operator application')
            sim.apply_qubit_operator(QubitOperator(f'X{n - 1}'), q)
        x = int(np.argmax(np.abs(v)))
        bits = [x >> i & 1 for i in range(n)]
        sim.collapse_wavefunction([q[n - 1]], [bits[n - 1]])
        if abs(sim.get_probability([bits[n - 1]], [q[n - 1]]) - 1) > 1e-9 or abs(sim.get_probability(bits, q) - abs(v[x]) ** 2 / project(v, [n - 1], [bits[n - 1]])[1]) > 1e-9:
            return ctx.fail(sig, 'collapse')
        got = measure(sim, eng, list(q), False)
        if abs(sim.get_probability(list(got), q) - 1) > 1e-9 or got[n - 1] != bits[n - 1]:
            return ctx.fail(sig, f'measured {got}')
        q = None
        sims.sink(eng)


PAULIS = ['', 'X', 'Y', 'Z']


def term(word):
    return ' '.join(f'{p}{i}' for i, p in enumerate(word) if p)


def run_paulis(case, ctx):
    """expectation values and application of single Pauli strings and of two-term sums on permuted registers"""
    from projectq.ops import QubitOperator

    _, kind, s, part = case
    v = states()[s]
    n = 3
    words = list(itertools.product(PAULIS, repeat=n))[part * 8:part * 8 + 8]
    other = [('X', '', 'Y'), ('', 'Z', ''), ('', '', '')]
    sim, eng, q = start(kind, v, (1, 2, 0))
    for w in words:
        for o in [None] + other:
            for perm in ((0, 1, 2), (2, 0, 1)):
                H = QubitOperator(term(w), .7)
                M = .7 * ref.pauli_matrix({tuple((i, p) for i, p in enumerate(w) if p): 1}, n)
                if o is not None:
                    if o == w:
                        continue
                    H = H + QubitOperator(term(o), -1.3)
                    M = M - 1.3 * ref.pauli_matrix({tuple((i, p) for i, p in enumerate(o) if p): 1}, n)
                # operator qubit k is q[perm[k]]
                idx = np.arange(8)
                src = sum((idx >> perm[k] & 1) << k for k in range(n))
                u = np.zeros(8, dtype=complex)
                u[src] = v
                want = np.vdot(u, M @ u).real
                qs = [q[i] for i in perm]
                sig = f'paulis {kind} {s} {H!s} perm={perm}'.replace('\n', ' ')
                ctx.trace()
                ctx.tr(3)
                ctx.key(sig)
                load(sim, q, v, (1, 2, 0))
                if abs(sim.get_expectation_value(H, qs) - want) > 1e-9:
                    return ctx.fail(sig, f'expectation value {sim.get_expectation_value(H, qs)}, expected {want}')
                if not close(now(sim, q), v):
                    return ctx.fail(sig, 'the expectation value changed the state')
                sim.apply_qubit_operator(H, qs)
                if not close(now(sim, q), (M @ u)[src]):
                    return ctx.fail(sig, 'wrong state after applying the operator')
    q = None
    sims.sink(eng)


def run_ops(case, ctx):
    """complex coefficients, several terms, fewer operator qubits than register qubits"""
    from projectq.ops import QubitOperator

    _, kind, s = case
    v = states()[s]
    n = int(np.log2(len(v)))
    sim, eng, q = start(kind, v, tuple(range(n))[::-1])
    for terms in ([('X0', 1j)], [('X0 Z1', 2 - 1j), ('Y1', .5)], [('', 3), ('Z0', -1)], [('X0 Y1 Z2', 1j), ('Z2', 1), ('X1', -.5j), ('', .25)], []):
        for perm in itertools.permutations(range(n), 3) if n == 3 else ((3, 0, 2), (1, 3, 0), (0, 1, 2)):
            H = QubitOperator('', 0) * 0
            H.terms = {}
            d = {}
            for t, c in terms:
                H += QubitOperator(t, c)
                d[tuple((int(x[1]), x[0]) for x in t.split())] = c
            M = ref.pauli_matrix(d, 3) if d else np.zeros((8, 8))
            st = ref.State(list(range(n))[::-1], v.reshape((2,) * n + (1,)))
            st.apply(M, list(perm))
            want = st.vector(range(n))
            load(sim, q, v, tuple(range(n))[::-1])
            sig = f'ops {kind} {s} {terms} {perm}'
            ctx.trace()
            ctx.tr()
            ctx.key(sig)
            sim.apply_qubit_operator(H, [q[i] for i in perm])
            if not close(now(sim, q), want):
                return ctx.fail(sig, 'wrong state')
    q = None
    sims.sink(eng)


def refusals():
    from projectq.ops import QubitOperator as Q
    from projectq.types import WeakQubitRef

    R = (RuntimeError, ValueError, Exception)
    ghost = lambda e: WeakQubitRef(e, 77)  # noqa
    return [
        ('probability of an unknown qubit', lambda e, q, s: s.get_probability('1', [ghost(e)])),
        ('probability, known and unknown', lambda e, q, s: s.get_probability('10', [q[0], ghost(e)])),
        ('probability, too few bits', lambda e, q, s: s.get_probability('1', [q[0], q[1]])),
        ('amplitude of fewer qubits', lambda e, q, s: s.get_amplitude('11', [q[0], q[1]])),
        ('amplitude with an unknown qubit', lambda e, q, s: s.get_amplitude('110', [q[0], q[1], ghost(e)])),
        ('amplitude, repeated qubit', lambda e, q, s: s.get_amplitude('111', [q[0], q[1], q[1]])),
        ('amplitude, too few bits', lambda e, q, s: s.get_amplitude('11', [q[0], q[1], q[2]])),
        ('collapse of an unknown qubit', lambda e, q, s: s.collapse_wavefunction([ghost(e)], [0])),
        ('collapse, known and unknown', lambda e, q, s: s.collapse_wavefunction([q[0], ghost(e)], [0, 0])),
        ('collapse, too few values', lambda e, q, s: s.collapse_wavefunction([q[0], q[1]], [0])),
        ('collapse, too many values', lambda e, q, s: s.collapse_wavefunction([q[0]], [0, 1])),
        ('set_wavefunction on fewer qubits', lambda e, q, s: s.set_wavefunction([1, 0, 0, 0], [q[0], q[1]])),
        ('set_wavefunction with an unknown qubit', lambda e, q, s: s.set_wavefunction([1] + [0] * 7, [q[0], q[1], ghost(e)])),
        ('set_wavefunction on too many qubits', lambda e, q, s: s.set_wavefunction([1] + [0] * 15, [q[0], q[1], q[2], ghost(e)])),
        ('set_wavefunction too short', lambda e, q, s: s.set_wavefunction([1, 0, 0, 0], q)),
        ('set_wavefunction too long', lambda e, q, s: s.set_wavefunction([1] + [0] * 15, q)),
        ('expectation value beyond the register', lambda e, q, s: s.get_expectation_value(Q('Z3'), q)),
        ('expectation value beyond the register, second term', lambda e, q, s: s.get_expectation_value(Q('Z0') + Q('X0 Z1'), [q[2]])),
        ('operator beyond the register', lambda e, q, s: s.apply_qubit_operator(Q('Z0 X3'), q)),
        ('operator beyond the register, second term', lambda e, q, s: s.apply_qubit_operator(Q('Z0') + Q('Y1'), [q[2]])),
    ]


def run_refuse(case, ctx):
    _, kind, i = case
    label, f = refusals()[i]
    v = states()['generic']
    for order in ((0, 1, 2), (2, 0, 1)):
        sim, eng, q = start(kind, v, order)
        got = None
        try:
            r = f(eng, q, sim)
        except Exception as e:  # noqa
            got = e
        ctx.trace()
        ctx.tr()
        ctx.key(label)
        if got is None:
            ctx.fail(f'refuse {kind} {label}', f'not refused: {r!r}')
        elif not close(now(sim, q), v):
            ctx.fail(f'refuse {kind} {label}', 'the refused request changed the state')
        q = None
        sims.sink(eng)


def run_refuse_mapped(case, ctx):
    """qubits the mapper has not placed yet (no flush)"""
    from projectq.cengines import ManualMapper
    from projectq.ops import QubitOperator
    from projectq.types import WeakQubitRef

    sim = sims.make(case[1])
    eng = sims.engine(sim, [ManualMapper(lambda i: i + 2)])
    q = eng.allocate_qureg(2)
    eng.flush()
    g = WeakQubitRef(eng, 9)
    for label, f in (('probability', lambda: sim.get_probability('1', [g])), ('amplitude', lambda: sim.get_amplitude('11', [q[0], g])), ('collapse', lambda: sim.collapse_wavefunction([g], [0])),
                     ('set', lambda: sim.set_wavefunction([1, 0, 0, 0], [q[0], g])), ('expectation', lambda: sim.get_expectation_value(QubitOperator('Z0'), [g])),
                     ('operator', lambda: sim.apply_qubit_operator(QubitOperator('Z0'), [g]))):
        ctx.trace()
        ctx.tr()
        try:
            f()
        except RuntimeError:
            continue
        ctx.fail(f'refuse-mapped {case[1]} {label}', 'a qubit that is not mapped is accepted')
    q = None
    sims.sink(eng)
