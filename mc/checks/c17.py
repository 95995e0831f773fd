"""C17: the resource counter against an explicit dependency graph of the commands that passed through it."""
import itertools

from mc import pq, sims

ID = 'C17'
RULE = ('all command histories up to a depth over allocation, release, one- to three-qubit gates, equal and different angles, positive and negative controls, tags, operators, measurement and flush, '
        'x {as backend, in front of a backend, via the main engine behind an optimizer}; after every command all counters are compared with a tally and the longest path of the dependency graph. '
        'Non-trivial: depth > 1')
ASSUMPTIONS = ['a gate on several qubits depends on every earlier command on one of them since its allocation']
CHUNK = 8

# letter: (label of the count key, wires, controls)
GATES = {'X0': ('X', [0], []), 'H1': ('H', [1], []), 'X2': ('X', [2], []), 'Rx0': ('Rx1', [0], []), 'Rx1': ('Rx1', [1], []), 'Rx0w': ('Rx1', [0], []), 'Rx1b': ('Rx2', [1], []), 'Rz0': ('Rz1', [0], []),
         'R2': ('R1', [2], []), 'tX0': ('X', [0], []), 'CX01': ('X', [1], [0]), 'CX20': ('X', [0], [2]), 'nCX10': ('X', [0], [1]), 'CCX': ('X', [1], [0, 2]), 'nCCX': ('X', [2], [0, 1]), 'CRx': ('Rx1', [2], [1]),
         'Sw02': ('Swap', [0, 2], []), 'CSw': ('Swap', [0, 1], [2]), 'Mat1': ('Mat', [1], []), 'Mat0': ('Mat', [0], []), 'add': ('add', [0, 1], []), 'add2': ('add', [2, 1], []), 'qop': ('qop', [0, 2], []),
         'tev': ('tev', [1, 2], []), 'tev2': ('tev2', [0, 1], []), 'ctev': ('tev', [0, 1], [2]), 'qft': ('QFT', [0, 1, 2], []), 'sdag': ('Sdag', [0], []), 'sdag2': ('Sdag', [2], []), 'S1': ('S', [1], [])}
OTHER = ['A0', 'A1', 'A2', 'D0', 'D1', 'D2', 'M0', 'M1', 'F']
LETTERS = OTHER + list(GATES)
SMALL = ['A0', 'D0', 'D1', 'A1', 'M0', 'F', 'X0', 'Rx1', 'Rx0w', 'CX01', 'nCX10', 'CSw', 'tev']


def make(label):
    from projectq import ops as O
    from projectq.libs.math import AddConstant

    return {'X': lambda: O.X, 'H': lambda: O.H, 'Rx1': lambda: O.Rx(.5), 'Rx2': lambda: O.Rx(.75), 'Rz1': lambda: O.Rz(.5), 'R1': lambda: O.R(.5), 'Swap': lambda: O.Swap, 'S': lambda: O.S,
            'Mat': lambda: O.MatrixGate([[0, 1j], [-1j, 0]]), 'add': lambda: AddConstant(1), 'qop': lambda: O.QubitOperator('X0 Y1'), 'tev': lambda: O.TimeEvolution(.5, O.QubitOperator('Z0 Z1')),
            'tev2': lambda: O.TimeEvolution(.75, O.QubitOperator('Z0 Z1')), 'QFT': lambda: O.QFT, 'Sdag': lambda: O.get_inverse(O.S), 'A': lambda: O.Allocate, 'D': lambda: O.Deallocate, 'M': lambda: O.Measure}[label]()


def cases(tier):
    T = tier != 'quick'
    out = []
    for mode in ('last', 'mid'):
        for live in (0, 7, 3):
            for a in LETTERS:
                if not usable(a, live):
                    continue
                for b in LETTERS:
                    out.append(['hist', mode, live, [a, b], 'full', 1 if not T else 2])
        for live in (7,) if not T else (7, 2):
            for a in SMALL:
                for b in SMALL:
                    out.append(['hist', mode, live, [a, b], 'small', 3 if not T else 4])
    for a in PROG:
        for b in PROG:
            out.append(['prog', [a, b], 2 if not T else 3])
    return out


def usable(x, live):
    if x in GATES:
        return all(live >> w & 1 for w in GATES[x][1] + GATES[x][2])
    if x[0] == 'A':
        return not live >> int(x[1]) & 1
    if x[0] in 'DM':
        return bool(live >> int(x[1]) & 1)
    return True


def after(x, live):
    if x[0] == 'A' and x not in GATES:
        return live | 1 << int(x[1])
    if x[0] == 'D' and x not in GATES:
        return live & ~(1 << int(x[1]))
    return live


def run(case, ctx):
    if case[0] == 'prog':
        return run_prog(case, ctx)
    _, mode, live, prefix, alpha, more = case
    letters = LETTERS if alpha == 'full' else SMALL

    def rec(w, lv, left):
        if not left:
            return history(mode, live, w, ctx)
        for x in letters:
            if usable(x, lv) and rec(w + [x], after(x, lv), left - 1) is False:
                return False
        return None
    lv = live
    for x in prefix:
        if not usable(x, lv):
            return
        lv = after(x, lv)
    rec(list(prefix), lv, more)


class Tally:
    def __init__(self):
        self.counts, self.nodes, self.gen, self.live, self.width, self.extra = {}, [], {}, set(), 0, 0

    def add(self, label, cls, wires, nctl):
        """wires: all of them (targets and controls)"""
        k = (label, nctl)
        self.counts[k] = self.counts.get(k, 0) + 1
        if label == 'A':
            self.live.add(wires[0])
            self.gen[wires[0]] = self.gen.get(wires[0], 0) + 1
        elif label == 'D':
            self.live.discard(wires[0])
        else:
            self.nodes.append({(w, self.gen.get(w)) for w in wires})
        self.width = max(self.width, len(self.live))

    def depth(self):
        """longest path: node j depends on every earlier node sharing a qubit"""
        d = []
        for j, a in enumerate(self.nodes):
            d.append(1 + max([d[i] for i in range(j) if self.nodes[i] & a], default=0))
        return max(d, default=0)

    def check(self, rc):
        if rc.max_width != self.width:
            return f'max_width {rc.max_width}, expected {self.width}'
        if rc.depth_of_dag != self.depth():
            return f'depth_of_dag {rc.depth_of_dag}, expected {self.depth()}'
        got = dict(rc.gate_counts)
        if sorted(got.values()) != sorted(self.counts.values()):
            return f'gate_counts {[(type(g).__name__, c, v) for (g, c), v in got.items()]}, expected {self.counts}'
        cl = {}
        for (label, n), v in self.counts.items():
            g = make(label)
            if got.get((g, n)) != v:
                return f'gate_counts[{label}, {n}] is {got.get((g, n))}, expected {v}'
            cl[type(g), n] = cl.get((type(g), n), 0) + v
        if dict(rc.gate_class_counts) != cl:
            return f'gate_class_counts {rc.gate_class_counts}, expected {cl}'
        return None

    def text(self, rc):
        s = str(rc)
        if not self.counts:
            return None if s == '(No quantum resources used)' else f'prints {s!r}'
        want_c, want_g, cl = [], [], {}
        for (label, n), v in self.counts.items():
            g = make(label)
            want_g.append('C' * n + str(g) + f' : {v}')
            cl['C' * n + type(g).__name__] = cl.get('C' * n + type(g).__name__, 0) + v
        want_c = [f'{k} : {v}' for k, v in cl.items()]
        lines = [x.strip() for x in s.splitlines()]
        if 'Gate counts:' not in lines or 'Gate class counts:' not in lines:
            return f'prints {s!r}'
        i, j = lines.index('Gate class counts:'), lines.index('Gate counts:')
        a, b = [x for x in lines[i + 1:j] if x], [x for x in lines[j + 1:] if x and not x.startswith('Max. width')]
        if sorted(a) != sorted(want_c) or sorted(b) != sorted(want_g):
            return f'prints {s!r}, expected {sorted(want_c)} and {sorted(want_g)}'
        if f'Max. width (number of qubits) : {self.width}.' not in s:
            return f'prints {s!r}, width {self.width}'
        return None


def history(mode, live, w, ctx):
    from projectq import MainEngine
    from projectq import ops as O
    from projectq.backends import ResourceCounter
    from projectq.meta import LogicalQubitIDTag
    from projectq.types import WeakQubitRef

    rc = ResourceCounter()
    rec = pq.Recorder()
    eng = MainEngine(rec, [rc]) if mode == 'mid' else MainEngine(rc, [])
    q = [WeakQubitRef(eng, i) for i in (4, 0, 9)]
    t = Tally()
    sent, bad = [], None
    sig = f'{mode} live={live:03b}: {" ".join(w)}'
    for x in [f'A{i}' for i in range(3) if live >> i & 1] + ['-'] + list(w):
        if x == '-':
            continue
        if x in GATES:
            label, tg, ct = GATES[x]
            g = make(label)
            if x == 'Rx0w':
                g = O.Rx(.5 + 4 * 3.141592653589793)
            if label in ('add', 'qop', 'tev', 'tev2', 'QFT'):
                regs = ([q[i] for i in tg],)
            else:
                regs = tuple([q[i]] for i in tg)
            cmd = O.Command(eng, g, regs, controls=[q[i] for i in ct], control_state=('0' + '1' * (len(ct) - 1) if x[0] == 'n' else '1' * len(ct)), tags=['foo'] if x[0] == 't' else ())
            t.add(label, None, tg + ct, len(ct))
        elif x == 'F':
            cmd = O.Command(eng, O.FlushGate(), ([WeakQubitRef(eng, -1)],))
        else:
            i = int(x[1])
            cmd = O.Command(eng, make(x[0]), ([q[i]],), tags=[LogicalQubitIDTag(77)] if x == 'M1' else ())
            t.add(x[0], None, [i], 0)
        rc.receive([cmd])
        ctx.tr()
        sent.append(cmd)
        bad = t.check(rc)
        if bad:
            break
        if x[0] == 'M' and x not in GATES and x != 'Mat' and mode == 'last':
            r = eng.get_measurement_result(WeakQubitRef(eng, 77) if x == 'M1' else q[int(x[1])])
            if r is not False and r != 0:
                bad = f'measurement result {r}'
    if not bad:
        bad = t.text(rc)
    if not bad and mode == 'mid' and (len(rec.cmds) != len(sent) or any(a is not b and not a == b for a, b in zip(rec.cmds, sent))):
        bad = f'forwarded {[str(c) for c in rec.cmds]}'
    sims.sink(eng)
    ctx.trace()
    if t.depth() > 1:
        ctx.key(sig)
    ctx.state((t.depth(), t.width, tuple(sorted(t.counts.items()))))
    if bad:
        ctx.fail(sig, bad)
        return False
    return None


PROG = ['alloc', 'reg2', 'del0', 'dell', 'h', 'hh', 'cx', 'cx2', 'rz', 'meas', 'flush', 'cblock']


def run_prog(case, ctx):
    """whole programs: two counters around an optimizer, both must agree with what a recorder next to them saw"""
    from projectq import MainEngine
    from projectq import ops as O
    from projectq.backends import ResourceCounter
    from projectq.cengines import LocalOptimizer
    from projectq.meta import Control

    _, prefix, more = case
    for tail in itertools.product(PROG, repeat=more):
        w = list(prefix) + list(tail)
        a, b, ra, rb = ResourceCounter(), ResourceCounter(), pq.Recorder(), pq.Recorder()
        eng = MainEngine(b, [ra, a, LocalOptimizer(3), rb])
        q = [eng.allocate_qubit()[0]]
        ok = True
        for op in w:
            n = len(q)
            if op == 'alloc' and n < 5:
                q.append(eng.allocate_qubit()[0])
            elif op == 'reg2' and n < 4:
                q.extend(eng.allocate_qureg(2))
            elif op in ('del0', 'dell') and n:
                q.pop(0 if op == 'del0' else -1).__del__()
            elif op == 'h' and n:
                O.H | q[0]
            elif op == 'hh' and n:
                O.H | q[-1]
            elif op == 'cx' and n > 1:
                O.CNOT | (q[0], q[-1])
            elif op == 'cx2' and n > 1:
                O.CNOT | (q[-1], q[0])
            elif op == 'rz' and n:
                O.Rz(.5) | q[0]
            elif op == 'meas' and n:
                O.Measure | q[-1]
            elif op == 'flush':
                eng.flush()
            elif op == 'cblock' and n > 2:
                with Control(eng, q[:-1], '0' + '1' * (n - 2)):
                    O.Rz(.5) | q[-1]
            else:
                ok = False
                break
            ctx.tr()
        if ok:
            eng.flush()
            bad = None
            for rc, r, where in ((a, ra, 'before'), (b, rb, 'after')):
                t = Tally()
                for cmd in r.cmds:
                    name = {'AllocateQubitGate': 'A', 'DeallocateQubitGate': 'D', 'MeasureGate': 'M', 'XGate': 'X', 'HGate': 'H', 'Rz': f'Rz{getattr(cmd.gate, "angle", 0)}', 'FlushGate': None}[type(cmd.gate).__name__]
                    if name:
                        t.add(name, None, [x.id for r_ in cmd.all_qubits for x in r_], len(cmd.control_qubits))
                bad = bad or prog_check(t, rc, where)
            ctx.trace()
            if t.depth() > 1:
                ctx.key(tuple(w))
            if bad:
                ctx.fail('program ' + ' '.join(w), bad)
        while q:
            q.pop().id = -1
        sims.sink(eng)


def prog_check(t, rc, where):
    if rc.max_width != t.width or rc.depth_of_dag != t.depth():
        return f'{where} the optimizer: width {rc.max_width}, depth {rc.depth_of_dag}; expected {t.width}, {t.depth()}'
    names = {'A': 'AllocateQubitGate', 'D': 'DeallocateQubitGate', 'M': 'MeasureGate', 'X': 'XGate', 'H': 'HGate'}
    got = sorted(((type(g).__name__ if type(g).__name__ != 'Rz' else f'Rz{g.angle}'), c, v) for (g, c), v in rc.gate_counts.items())
    want = sorted((names.get(k, k), n, v) for (k, n), v in t.counts.items())
    if got != want:
        return f'{where} the optimizer: counts {got}, expected {want}'
    return None
