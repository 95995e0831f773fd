"""C10: the pure-Python simulator core has the same effect and the same refusals as the compiled one, on every history."""
import itertools

import numpy as np

from mc import pq, ref, sims

ID = 'C10'
RULE = ('all histories up to a depth over the operations of the simulator (gates, controlled gates, math emulation, operators, time evolution, queries, collapse, measurement, state setting, allocation, '
        'release, misuse), executed on both cores in lock step; after every operation answers, refusals, qubit ids and states are compared. Non-trivial: at least one operation changes the state')
ASSUMPTIONS = ['a random outcome of the compiled core is imposed on the Python core by repeating its measurement from the same state']
CHUNK = 2
N0 = 3


def letters():
    from projectq import ops as O
    from projectq.libs import math as M
    from projectq.meta import Control

    Q = O.QubitOperator
    rng = np.random.RandomState(3)
    u2 = np.linalg.qr(rng.randn(4, 4) + 1j * rng.randn(4, 4))[0]
    u3 = np.linalg.qr(rng.randn(8, 8) + 1j * rng.randn(8, 8))[0]
    L = {}

    def gate(g, t, c=()):
        def f(m):
            if max(t + c) >= len(m.q):
                raise Skip
            a = tuple(m.q[i] for i in t)
            with Control(m.eng, [m.q[i] for i in c]):
                g | (a if len(a) > 1 else a[0])
            m.eng.flush()
        return f

    def regs(g, *r, c=()):
        def f(m):
            if max(max(x) for x in r) >= len(m.q):
                raise Skip
            a = tuple([m.q[i] for i in x] for x in r)
            with Control(m.eng, [m.q[i] for i in c]):
                g | (a if len(a) > 1 else a[0])
            m.eng.flush()
        return f

    L['H0'] = gate(O.H, (0,))
    L['Ry1'] = gate(O.Ry(.7), (1,))
    L['X2'] = gate(O.X, (2,))
    L['CX01'] = gate(O.X, (1,), (0,))
    L['CCRx'] = gate(O.Rx(1.1), (0,), (2, 1))
    L['CPh'] = gate(O.Ph(.4), (1,), (2,))
    L['U20'] = gate(O.MatrixGate(u2), (2, 0))
    L['U201'] = gate(O.MatrixGate(u3), (2, 0, 1))
    L['CU10'] = gate(O.MatrixGate(u2), (1, 0), (2,))
    L['Swap'] = gate(O.Swap, (0, 2))
    L['Add'] = regs(M.AddConstant(1), [2, 0, 1])
    L['CAdd'] = regs(M.AddConstant(-1), [1, 0], c=(2,))
    L['AddMod'] = regs(M.AddConstantModN(1, 3), [0, 1])
    L['MulMod'] = regs(M.MultiplyByConstantModN(2, 3), [1, 2], c=(0,))
    L['AddQ'] = regs(M.AddQuantum, [0], [2], [1])
    L['TE'] = regs(O.TimeEvolution(.7, Q('X0 Y1') + Q('Z1', -.5)), [2, 0])
    L['CTE'] = regs(O.TimeEvolution(-1.3, Q('X0 Z1') + Q('Y0', .3) + Q('', .2)), [0, 1], c=(2,))
    L['TEid'] = regs(O.TimeEvolution(.5, Q('Z0', 1.) + Q('', 2.)), [1])
    L['TElong'] = regs(O.TimeEvolution(6., Q('X0', .8) + Q('Z0 Z1', .5)), [1, 2])
    L['TEempty'] = lambda m: m.raw_te([([], .7)], .9, [0])
    L['CTEempty'] = lambda m: m.raw_te([([], .7)], .9, [0], [1])
    L['TE0'] = regs(O.TimeEvolution(0., Q('X0', .8)), [0])

    def sim(f):
        return f
    L['op'] = lambda m: m.sim.apply_qubit_operator(Q('X0 Y1', 1j) + Q('Z0', .5), m.pick(2, 1))
    L['opid'] = lambda m: m.sim.apply_qubit_operator(Q('', 2j), m.pick(0))
    L['exp'] = lambda m: m.sim.get_expectation_value(Q('X0 Z1', .4) + Q('Y0', -1.) + Q('', 3.), m.pick(1, 2))
    L['expbad'] = lambda m: m.sim.get_expectation_value(Q('X3'), m.pick(0))
    L['prob'] = lambda m: m.sim.get_probability('01', m.pick(2, 0))
    L['probbad'] = lambda m: m.sim.get_probability('1', m.ghost())
    L['probshort'] = lambda m: m.sim.get_probability('1', m.pick(0, 1))
    L['amp'] = lambda m: m.sim.get_amplitude([1] + [0] * (len(m.q) - 1), m.q)
    L['ampr'] = lambda m: m.sim.get_amplitude([1] + [0] * (len(m.q) - 1), m.q[::-1])
    L['ampbad'] = lambda m: m.sim.get_amplitude('1', m.pick(0))
    L['col0'] = lambda m: m.sim.collapse_wavefunction(m.pick(0), [1])
    L['col21'] = lambda m: m.sim.collapse_wavefunction(m.pick(2, 1), [0, 1])
    L['colbad'] = lambda m: m.sim.collapse_wavefunction(m.pick(0, 1), [0])
    L['colghost'] = lambda m: m.sim.collapse_wavefunction(m.ghost(), [0])
    L['set'] = lambda m: m.setwf(False)
    L['setr'] = lambda m: m.setwf(True)
    L['setbad'] = lambda m: m.sim.set_wavefunction([1, 0], m.q)
    L['setpart'] = lambda m: m.sim.set_wavefunction([1, 0], m.pick(0))
    L['M0'] = lambda m: m.measure(0)
    L['M21'] = lambda m: m.measure(2, 1)
    L['alloc'] = lambda m: m.alloc()
    L['free0'] = lambda m: m.free(0)
    L['free2'] = lambda m: m.free(2)
    L['big'] = lambda m: m.big()
    L['nofit'] = lambda m: m.nofit()
    return L


class Skip(Exception):
    pass


class Machine:
    def __init__(self, kind, fusion):
        self.sim = sims.make(kind, fusion)
        self.eng = sims.engine(self.sim)
        self.q = [self.eng.allocate_qubit()[0] for _ in range(N0)]
        self.eng.flush()
        self.want = None

    def pick(self, *i):
        if max(i) >= len(self.q):
            raise Skip
        return [self.q[k] for k in i]

    def ghost(self):
        from projectq.types import WeakQubitRef

        return [WeakQubitRef(self.eng, 55)]

    def raw_te(self, op, t, qs, c=()):
        if max(list(qs) + list(c)) >= len(self.q):
            raise Skip
        from projectq.ops import Command, QubitOperator, TimeEvolution

        g = TimeEvolution(t, QubitOperator('', op[0][1]))
        self.sim.receive([Command(self.eng, g, ([self.q[i] for i in qs],), controls=[self.q[i] for i in c])])
        self.eng.flush()

    def setwf(self, rev):
        n = len(self.q)
        v = np.exp(1j * np.arange(2 ** n)) * (1 + np.arange(2 ** n) % 3)
        self.sim.set_wavefunction(v / np.linalg.norm(v), self.q[::-1] if rev else self.q)

    def measure(self, *i):
        from projectq.ops import Command, MeasureGate

        qs = self.pick(*i)
        m, st = self.sim.cheat()
        st, m = np.array(st), dict(m)
        if abs(np.linalg.norm(st) - 1) > 1e-9:
            raise Skip  # after a non-unitary operator
        for _ in range(400):
            self.sim.receive([Command(self.eng, MeasureGate(), (qs,))])
            r = [int(x) for x in qs]
            if self.want is None or r == self.want:
                return r
            by = {x.id: x for x in self.q}
            order = sorted(m, key=m.get)
            self.sim.set_wavefunction(st, [by[k] for k in order])
        return ('never', self.want, r)

    def alloc(self):
        if len(self.q) >= 4:
            raise Skip
        self.q.append(self.eng.allocate_qubit()[0])

    def free(self, i):
        from projectq.ops import Command, DeallocateQubitGate

        if i >= len(self.q):
            raise Skip
        self.sim.receive([Command(self.eng, DeallocateQubitGate(), ([self.q[i]],))])
        x = self.q.pop(i)
        self.eng.active_qubits.discard(x)
        x.id = -1

    def big(self):
        from projectq.ops import MatrixGate

        if len(self.q) < 2:
            raise Skip
        MatrixGate(np.eye(64)) | (self.q[0], self.q[1])

    def nofit(self):
        from projectq.ops import MatrixGate

        MatrixGate(np.eye(4)) | self.pick(0)[0]

    def close(self):
        for x in self.q:
            x.id = -1
        sims.sink(self.eng)


def cases(tier):
    L = list(letters())
    out = []
    for a in L:
        for b in L:
            out.append(['hist', [a, b], 1])
            if tier != 'quick':
                out.append(['hist', [a, b], 2])
    return out


_S = {}
# letters that act after two others (the first two take every letter)
LAST = ['H0', 'U20', 'CU10', 'CAdd', 'AddMod', 'CTE', 'TEempty', 'op', 'exp', 'prob', 'ampr', 'col21', 'setr', 'M21', 'alloc', 'free0', 'setbad']


def run(case, ctx):
    L = _S.get('L') or _S.setdefault('L', letters())
    _, prefix, more = case
    for tail in itertools.product(L if more == 1 else LAST, repeat=more):
        w = list(prefix) + list(tail)
        if history(w, L, ctx, len(tail) and (sum(map(ord, ''.join(w))) % 2 == 0)) is False:
            return


def act(m, f):
    try:
        r = f(m)
    except Skip:
        raise
    except Exception as e:  # noqa
        return 'refused', e
    if r is None:
        return 'ok', None
    return 'ok', np.round(np.array(r, dtype=complex), 9).tolist() if not isinstance(r, (list, tuple)) else list(r)


def history(w, L, ctx, fusion):
    A, B = Machine('cpp', bool(fusion)), Machine('py', bool(fusion))
    sig = ' '.join(w)
    try:
        for k, a in enumerate(w):
            A.want = None
            try:
                ra = act(A, L[a])
                B.want = ra[1] if a.startswith('M') and a[1].isdigit() and ra[0] == 'ok' else None
                rb = act(B, L[a])
            except Skip:
                return
            ctx.tr(2)
            here = f'{" ".join(w[:k + 1])}'
            if ra[0] != rb[0]:
                return bool(ctx.fail(here, f'compiled: {ra}, Python: {rb}'))
            if ra[0] == 'ok':
                if isinstance(ra[1], complex) or isinstance(ra[1], (int, float)):
                    if abs(ra[1] - rb[1]) > 1e-8:
                        return bool(ctx.fail(here, f'compiled: {ra[1]}, Python: {rb[1]}'))
                elif ra[1] != rb[1]:
                    return bool(ctx.fail(here, f'compiled: {ra[1]}, Python: {rb[1]}'))
            elif not (isinstance(ra[1], type(rb[1])) or isinstance(rb[1], type(ra[1]))):
                return bool(ctx.fail(here, f'refused differently: compiled {ra[1]!r}, Python {rb[1]!r}'))
            ids = [x.id for x in A.q]
            if ids != [x.id for x in B.q]:
                return bool(ctx.fail(here, 'different qubit ids'))
            va, vb = sims.vector(A.sim, ids), sims.vector(B.sim, ids)
            if A.sim.cheat()[0] != B.sim.cheat()[0]:
                return bool(ctx.fail(here, f'positions: compiled {A.sim.cheat()[0]}, Python {B.sim.cheat()[0]}'))
            if np.max(np.abs(va - vb)) > 1e-8 * max(1, np.linalg.norm(va)):
                return bool(ctx.fail(here, f'states differ: compiled {np.round(va, 4)}, Python {np.round(vb, 4)}'))
            if k == len(w) - 1:
                ctx.state(np.round(va, 6).tobytes())
        ctx.trace()
        ctx.key(sig)
        ctx.outcome(w[-1])
    finally:
        A.close()
        B.close()
