"""C12: the unitary simulator against the reference product of matrices, its history and its measurement outcomes."""
import itertools
import random
import warnings

import numpy as np

from mc import ref, sims

ID = 'C12'
RULE = ('all histories up to a depth over allocation, release, one- to three-qubit gates (asymmetric matrices in every target order, controls), flush and measurement, x engine lists x random outcomes; '
        'after every operation the reported unitary and history are compared with reference products, every measured value with the states that can be reached; plus every gate that must be unavailable '
        'or refused. Non-trivial: unitary not diagonal')
ASSUMPTIONS = ['releasing a qubit in superposition acts on the others like a measurement']
CHUNK = 4

LETTERS = ['alloc', 'free0', 'freel', 'X0', 'Xl', 'H0', 'Hl', 'Sl', 'CX0l', 'CXl0', 'CRy', 'M2_0l', 'M2_l0', 'CM2', 'CCX', 'M3', 'M3r', 'CCM', 'sqsw', 'cond', 'flush', 'meas0', 'measl', 'measall']
SMALL = ['alloc', 'free0', 'freel', 'H0', 'Xl', 'CXl0', 'M2_l0', 'flush', 'meas0', 'measall']


def _rnd(n, seed):
    r = np.random.RandomState(seed)
    m = r.normal(size=(2 ** n, 2 ** n)) + 1j * r.normal(size=(2 ** n, 2 ** n))
    return np.linalg.qr(m)[0]


U1, U2, U3 = _rnd(1, 5), _rnd(2, 6), _rnd(3, 7)


def cases(tier):
    T = tier != 'quick'
    out = []
    for n0 in (2, 3) if not T else (1, 2, 3):
        for a in LETTERS:
            for b in LETTERS:
                out.append(['hist', 'plain', n0, [a, b], 'full', 1 if not T else 2])
    for a in SMALL:
        for b in SMALL:
            out.append(['hist', 'plain', 2, [a, b], 'small', 3 if not T else 4])
            for eng in ('manual', 'linear') if T else ():
                out.append(['hist', eng, 3, [a, b], 'small', 2])
    for eng in ('manual', 'linear', 'repl'):
        for a in LETTERS:
            out.append(['hist', eng, 3, [a], 'full', 1 if not T else 2])
    out += [['targets', n] for n in ((2, 3, 4) if not T else (2, 3, 4, 5))]
    out += [['avail'], ['born']]
    return out


def run(case, ctx):
    warnings.simplefilter('ignore')
    if case[0] == 'avail':
        return run_avail(ctx)
    if case[0] == 'born':
        return run_born(ctx)
    if case[0] == 'targets':
        return run_targets(case, ctx)
    _, eng, n0, prefix, alpha, more = case
    for tail in itertools.product(LETTERS if alpha == 'full' else SMALL, repeat=more):
        w = list(prefix) + list(tail)
        rnd = (.02, .97) if any(x.startswith(('meas', 'free')) for x in w) else (.5,)
        for r in rnd:
            if history(w, eng, n0, r, ctx) is False:
                return


class Skip(Exception):
    pass


class Model:
    """what the simulator must report"""

    def __init__(self):
        self.n, self.U, self.start, self.hist, self.fresh = 0, np.ones((1, 1), dtype=complex), [np.ones(1, dtype=complex)], [], True

    def now(self):
        return [self.U @ s for s in self.start] if self.fresh else self.start

    def renew(self):
        if not self.fresh:
            self.hist.append(self.old)
            self.U, self.fresh = np.eye(2 ** self.n, dtype=complex), True

    def alloc(self):
        self.renew()
        self.n += 1
        self.U = np.kron(ref.I2, self.U)
        self.start = [np.kron([1, 0], s) for s in self.start]

    def gate(self, M, targets, controls=()):
        self.renew()
        s = ref.State.inputs(range(self.n))
        s.apply(M, targets, controls)
        self.U = s.psi.reshape(2 ** self.n, -1) @ self.U

    def finish(self):
        if self.fresh:
            self.start = [self.U @ s for s in self.start]
            self.old, self.fresh = self.U, False

    def measure(self, i, v):
        """outcome v of qubit i; False if impossible"""
        self.finish()
        new = []
        for s in self.start:
            t = s.reshape(-1, 2, 2 ** i).copy()
            t[:, 1 - v] = 0
            nrm = np.linalg.norm(t)
            if nrm > 1e-6:
                new.append(t.reshape(-1) / nrm)
        self.start = new
        return bool(new)

    def free(self, i):
        self.finish()
        new = []
        for s in self.start:
            t = s.reshape(-1, 2, 2 ** i)
            for v in (0, 1):
                nrm = np.linalg.norm(t[:, v])
                if nrm > 1e-6:
                    new.append(t[:, v].reshape(-1) / nrm)
        self.start = new
        self.n -= 1
        self.dirty = False  # a release brings the state up to date


def engines(kind):
    from projectq.cengines import AutoReplacer, DecompositionRuleSet, LinearMapper, ManualMapper
    from projectq.setups import decompositions as D

    if kind == 'manual':
        return [ManualMapper(lambda i: 11 - i if i % 2 else 20 + 3 * i)]
    if kind == 'linear':
        return [LinearMapper(num_qubits=4)]
    if kind == 'repl':
        return [AutoReplacer(DecompositionRuleSet(modules=[D]))]
    return []


def apply(op, q, m, eng):
    from projectq import ops as O
    from projectq.meta import Control

    n = len(q)

    def need(k):
        if n < k:
            raise Skip
    if op == 'alloc':
        if n >= 4:
            raise Skip
        q.append(eng.allocate_qubit()[0])
        m.alloc()
    elif op.startswith('free'):
        need(1)
        i = n - 1 if op == 'freel' else 0
        x = q.pop(i)
        m.free(i)
        x.__del__()
    elif op in ('X0', 'Xl', 'H0', 'Hl', 'Sl'):
        need(1)
        i = 0 if op[1] == '0' else n - 1
        {'X': O.X, 'H': O.H, 'S': O.S}[op[0]] | q[i]
        m.gate({'X': ref.X, 'H': ref.H, 'S': ref.S}[op[0]], [i])
    elif op in ('CX0l', 'CXl0'):
        need(2)
        c, t = (0, n - 1) if op == 'CX0l' else (n - 1, 0)
        O.CNOT | (q[c], q[t])
        m.gate(ref.X, [t], [c])
    elif op == 'CRy':
        need(2)
        with Control(eng, q[0]):
            O.Ry(.7) | q[1]
        m.gate(ref.rot(ref.Y, .7), [1], [0])
    elif op in ('M2_0l', 'M2_l0'):
        need(2)
        t = [0, n - 1] if op == 'M2_0l' else [n - 1, 0]
        O.MatrixGate(U2) | tuple(q[i] for i in t)
        m.gate(U2, t)
    elif op == 'CM2':
        need(3)
        with Control(eng, q[1]):
            O.MatrixGate(U2) | (q[2], q[0])
        m.gate(U2, [2, 0], [1])
    elif op == 'CCX':
        need(3)
        O.Toffoli | (q[2], q[0], q[1])
        m.gate(ref.X, [1], [2, 0])
    elif op in ('M3', 'M3r'):
        need(3)
        t = [1, 0, n - 1] if op == 'M3' else [n - 1, 1, 0]
        O.MatrixGate(U3) | [q[i] for i in t]
        m.gate(U3, t)
    elif op == 'CCM':
        need(4)
        with Control(eng, [q[3], q[1]]):
            O.MatrixGate(U2) | (q[2], q[0])
        m.gate(U2, [2, 0], [3, 1])
    elif op == 'sqsw':
        need(2)
        O.SqrtSwap | (q[1], q[0])
        m.gate(ref.SQSWAP, [1, 0])
    elif op == 'cond':
        need(2)
        with Control(eng, q[1], '0'):
            O.X | q[0]
        s = ref.State.inputs(range(n))
        s.apply(ref.X, [0], [1], [0])
        m.gate(s.psi.reshape(2 ** n, -1), list(range(n)))
    elif op == 'flush':
        eng.flush()
    elif op.startswith('meas'):
        need(1)
        eng.flush()
        idx = list(range(n))[::-1] if op == 'measall' else [0 if op == 'meas0' else n - 1]
        O.All(O.Measure) | [q[i] for i in idx]
        eng.flush()
        got = []
        for i in idx:
            v = int(q[i])
            got.append((i, v))
            if not m.measure(i, v):
                return f'impossible outcomes (qubit, value) {got}'
    return None


def history(w, kind, n0, rnd, ctx):
    from projectq import MainEngine
    from projectq.backends import UnitarySimulator

    if 'cond' in w and kind != 'repl':
        return
    if kind == 'linear' and any(x in ('CM2', 'CCX', 'M3', 'M3r', 'CCM') for x in w):
        return
    sim = UnitarySimulator()
    eng = MainEngine(sim, engines(kind))
    q, m = [], Model()
    for _ in range(n0):
        q.append(eng.allocate_qubit()[0])
        m.alloc()
    sig = f'{kind} n={n0} rnd={rnd}: {" ".join(w)}'
    bad = None
    old = random.random
    random.random = lambda: rnd
    try:
        for k, op in enumerate(w):
            bad = apply(op, q, m, eng)
            ctx.tr()
            if not bad and kind == 'linear':  # reordered and swapped: only outcomes are comparable
                continue
            if not bad and op == 'cond':
                U = np.asarray(sim.unitary)
                bad = compare(U, m, sim, True)
            elif not bad:
                bad = compare(np.asarray(sim.unitary), m, sim, kind == 'repl')
            if bad:
                bad = f'after {" ".join(w[:k + 1])}: {bad}'
                break
        if not bad and kind == 'linear' and q:
            bad = apply('measall', q, m, eng)
    except Skip:
        return
    finally:
        random.random = old
        while q:
            q.pop().id = -1
        sims.sink(eng)
    ctx.trace()
    if abs(m.U - np.diag(np.diag(m.U))).max() > .1:
        ctx.key(sig)
    if bad:
        ctx.fail(sig, bad)
        return False


def same(a, b, phase):
    a = np.asarray(a)
    if a.shape != b.shape:
        return False
    if phase:
        z = np.vdot(b, a)
        return abs(abs(z) - len(b)) < 1e-8 * len(b) and np.allclose(a, b * (z / abs(z)), atol=1e-8)
    return np.allclose(a, b, atol=1e-9)


def compare(U, m, sim, phase):
    want = m.U if m.fresh else m.old
    if not same(U, want, phase):
        return f'unitary {np.round(U, 3).tolist()}, expected {np.round(want, 3).tolist()}'
    h = sim.history
    if len(h) != len(m.hist):
        return f'history of length {len(h)}, expected {len(m.hist)}'
    for i, (a, b) in enumerate(zip(h, m.hist)):
        if not same(a, b, phase):
            return f'history entry {i} is {np.round(a, 3).tolist()}, expected {np.round(b, 3).tolist()}'
    # what callers do with the reported values does not matter
    if U.shape and U.shape[0] > 1:
        x = sim.unitary
        x[0, 0] = 7
        for y in h:
            y[...] = 5
        if not same(sim.unitary, want, phase) or any(not same(a, b, phase) for a, b in zip(sim.history, m.hist)):
            return 'changing a returned matrix changes the simulator'
    return None


def run_targets(case, ctx):
    """every gate size on every ordered choice of targets and every set of controls"""
    from projectq import MainEngine
    from projectq import ops as O
    from projectq.backends import UnitarySimulator
    from projectq.meta import Control

    n = case[1]
    for k in range(1, n + 1):
        M = _rnd(k, 20 + k)
        for t in itertools.permutations(range(n), k):
            rest = [i for i in range(n) if i not in t]
            for nc in range(len(rest) + 1):
                for c in itertools.permutations(rest, nc):
                    for as_reg in (True, False):
                        sim = UnitarySimulator()
                        eng = MainEngine(sim, [])
                        q = eng.allocate_qureg(n)
                        m = Model()
                        for _ in range(n):
                            m.alloc()
                        args = [q[i] for i in t] if as_reg else tuple(q[i] for i in t)
                        with Control(eng, [q[i] for i in c]):
                            O.MatrixGate(M) | args
                        m.gate(M, list(t), list(c))
                        bad = compare(np.asarray(sim.unitary), m, sim, False)
                        for x in q:
                            x.id = -1
                        sims.sink(eng)
                        ctx.trace()
                        ctx.tr()
                        ctx.key((n, t, c, as_reg))
                        if bad:
                            return ctx.fail(f'{k}-qubit gate on {t} of {n}, controls {c}', bad)


def run_avail(ctx):
    from projectq import MainEngine
    from projectq import ops as O
    from projectq.backends import UnitarySimulator
    from projectq.libs.math import AddConstant
    from projectq.cengines import NotYetMeasuredError

    sim = UnitarySimulator()
    eng = MainEngine(sim, [])
    q = eng.allocate_qureg(3)
    yes = [(g, k) for g, k in ((O.X, 1), (O.Y, 1), (O.Z, 1), (O.H, 1), (O.S, 1), (O.T, 1), (O.SqrtX, 1), (O.Rx(.1), 1), (O.Ry(.1), 1), (O.Rz(.1), 1), (O.R(.1), 1), (O.Ph(.1), 1), (O.Swap, 2), (O.SqrtSwap, 2),
                              (O.Rxx(.1), 2), (O.Ryy(.1), 2), (O.Rzz(.1), 2), (O.MatrixGate(U2), 2), (O.Sdag, 1), (O.Tdag, 1))]
    no = [(O.QFT, 2), (O.Entangle, 2), (AddConstant(1), 2), (O.QubitOperator('X0'), 1), (O.TimeEvolution(1, O.QubitOperator('X0')), 1), (O.Barrier, 1), (O.BasicGate(), 1), (O.StatePreparation([1, 0]), 1),
          (O.UniformlyControlledRy([.1, .2]), 2)]
    for g, k in yes + no:
        for nc in range(0, 3 - k + 1):
            for cs in itertools.product('01', repeat=nc):
                regs = tuple([q[i]] for i in range(k)) if (g, k) in yes else ([q[i] for i in range(k)],)
                cmd = O.Command(eng, g, regs, controls=[q[2 - i] for i in range(nc)], control_state=''.join(cs))
                want = (g, k) in yes and '0' not in cs
                ctx.trace()
                ctx.key((type(g).__name__, cs))
                if bool(sim.is_available(cmd)) != want:
                    ctx.fail(f'avail {type(g).__name__} controls {cs}', f'reported {sim.is_available(cmd)}')
                if (g, k) in no:
                    before = np.asarray(sim.unitary)
                    try:
                        sim.receive([cmd])
                    except Exception:  # noqa
                        pass
                    else:
                        ctx.fail(f'avail {type(g).__name__} controls {cs}', 'not refused')
                    if not np.allclose(sim.unitary, before):
                        ctx.fail(f'avail {type(g).__name__} controls {cs}', 'a refused gate changed the unitary')
    for g in (O.Measure, O.Allocate, O.Deallocate):
        if not sim.is_available(O.Command(eng, g, ([q[0]],))):
            ctx.fail(f'avail {g}', 'reported as unavailable')
    # measurements before a flush are refused and give no value
    for prep in ((), (O.X,), (O.X, 'flush', O.H), (O.H, 'flush', 'M', O.X)):
        sim2 = UnitarySimulator()
        e2 = MainEngine(sim2, [])
        x = e2.allocate_qubit()
        for p in prep:
            if p == 'flush':
                e2.flush()
            elif p == 'M':
                O.Measure | x
            else:
                p | x
        before = np.asarray(sim2.unitary)
        nm = 'M' in [p for p in prep if isinstance(p, str)]
        try:
            sim2.receive([O.Command(e2, O.Measure, (x,))])
        except RuntimeError:
            pass
        else:
            ctx.fail(f'measure after {[str(p) for p in prep]}', 'measured before a flush')
        try:
            int(x)
            if not nm:
                ctx.fail(f'measure after {[str(p) for p in prep]}', 'a value was reported')
        except NotYetMeasuredError:
            pass
        if not np.allclose(sim2.unitary, before):
            ctx.fail(f'measure after {[str(p) for p in prep]}', 'a refused measurement changed the unitary')
        ctx.trace()
        x[0].id = -1
        sims.sink(e2)
    for x in q:
        x.id = -1
    sims.sink(eng)


def run_born(ctx):
    """each outcome gets exactly its share of the random source, in every qubit order, also of later measurements"""
    from projectq import MainEngine
    from projectq import ops as O
    from projectq.backends import UnitarySimulator

    from fractions import Fraction

    N = 64
    old = random.random
    for th in (np.pi / 2, np.pi / 3, 2 * np.pi / 3, 0, np.pi):
        p1 = np.sin(th / 2) ** 2
        for layout in itertools.permutations(range(3)):
            count = {}
            for i in range(N):
                random.random = lambda: (i + .5) / N
                try:
                    sim = UnitarySimulator()
                    eng = MainEngine(sim, [])
                    q = eng.allocate_qureg(3)
                    a, b, c = (q[j] for j in layout)
                    O.Ry(th) | a
                    O.CNOT | (a, b)
                    O.X | c
                    eng.flush()
                    O.All(O.Measure) | [b, c, a]
                    k = (int(a), int(b), int(c))
                finally:
                    random.random = old
                for x in q:
                    x.id = -1
                sims.sink(eng)
                count[k] = count.get(k, 0) + 1
                ctx.trace()
            ctx.key((th, layout))
            want = {k: p for k, p in (((0, 0, 1), 1 - p1), ((1, 1, 1), p1)) if p > 1e-9}
            if set(count) != set(want):
                ctx.fail(f'born {th} {layout}', f'outcomes {count}, expected only {want}')
            elif any(abs(Fraction(count[k], N) - want[k]) > 1.01 / N for k in want):
                ctx.fail(f'born {th} {layout}', f'{count} of {N}, expected shares {want}')
