"""C21: measurement results reach the qubit that was measured."""
import builtins
import itertools
import math

from mc import sims

ID = 'C21'
RULE = ('all programs up to a depth over X, H, CNOT, swap, (re-)measurement of single qubits, of all qubits in another order and inside a loop, release, allocation, flush, on 3-4 live qubits, x compiler '
        'chains (none, optimizers, full compilers, line/ring/grid/static/bounded/IBM mappers, linear and grid setups) x simulators (compiled with and without gate fusion, Python, classical) and command printer / '
        'drawers with typed-in results. At every flush every live qubit is read. The reference keeps every possible branch of outcomes and states; a read outside all branches is an error. '
        'Non-trivial: a program with at least two measurements or a gate before a measurement')
ASSUMPTIONS = ['results are claimed after a flush; the five-qubit IBM mapper supports a single flush per program (its documented way of working)']
CHUNK = 2

R2 = 1 / math.sqrt(2)


# ---------------------------------------------------------------- reference: all branches
class Branches:
    def __init__(self):
        self.b = [({}, {0: 1.0})]
        self.typed = None  # results are typed in

    def _map(self, f):
        out = []
        for o, s in self.b:
            n = {}
            for k, a in s.items():
                for k2, c in f(k):
                    n[k2] = n.get(k2, 0) + a * c
            out.append((o, {k: a for k, a in n.items() if abs(a) > 1e-9}))
        self.b = out

    def x(self, q):
        self._map(lambda k: [(k ^ 1 << q, 1)])

    def cx(self, c, t):
        self._map(lambda k: [(k ^ (k >> c & 1) << t, 1)])

    def swap(self, a, b):
        self.cx(a, b), self.cx(b, a), self.cx(a, b)

    def h(self, q):
        self._map(lambda k: [(k & ~(1 << q), R2), (k | 1 << q, -R2 if k >> q & 1 else R2)])

    def m(self, q):
        out = []
        for o, s in self.b:
            if self.typed is not None:
                out.append(({**o, q: self.typed()}, s))
                continue
            for v in (0, 1):
                t = {k: a for k, a in s.items() if k >> q & 1 == v}
                if t:
                    out.append(({**o, q: v}, t))
        self.b = out

    def free(self, q):
        """False if the release is not legal (not a classical value)."""
        return all(len({k >> q & 1 for k in s}) == 1 for _, s in self.b)

    def drop(self, q):
        self._map(lambda k: [(k & ~(1 << q), 1)])

    def read(self, ids, got):
        """Keep the branches that agree; False if there are none."""
        self.b = [(o, s) for o, s in self.b if all(o.get(q) == v for q, v in zip(ids, got))]
        return bool(self.b)


# ---------------------------------------------------------------- chains
def chain(name):
    from projectq.cengines import (AutoReplacer, DecompositionRuleSet, GridMapper, IBM5QubitMapper, InstructionFilter, LinearMapper, LocalOptimizer, ManualMapper, SwapAndCNOTFlipper, TagRemover)
    import projectq.setups.decompositions as d

    kind, *a = name.split(':')
    if kind == 'none':
        return []
    if kind == 'opt':
        return [LocalOptimizer(int(a[0]))]
    if kind == 'default':
        import projectq.setups.default as s

        return s.get_engine_list()
    if kind == 'full':
        r = AutoReplacer(DecompositionRuleSet(modules=[d]))
        return [TagRemover(), LocalOptimizer(5), r, TagRemover(), LocalOptimizer(5)]
    if kind == 'line':
        return [LinearMapper(int(a[0]), False, int(a[1]))] + ([LocalOptimizer(4)] if len(a) > 2 else [])
    if kind == 'optline':
        return [LocalOptimizer(4), LinearMapper(4, False, 5), LocalOptimizer(4)]
    if kind == 'ring':
        return [LinearMapper(int(a[0]), True, int(a[1]))]
    if kind == 'grid':
        return [GridMapper(2, 2, storage=int(a[0]))]
    if kind == 'gridrel':
        return [GridMapper(2, 2, {0: 7, 1: 2, 2: 0, 3: 5}, int(a[0]))]
    if kind == 'manual':
        return [ManualMapper({'rev': lambda i: 20 - i, 'mul': lambda i: 3 * i + 1}[a[0]])]
    if kind == 'bounded':
        from projectq.backends._ionq._ionq_mapper import BoundedQubitMapper

        return [BoundedQubitMapper(int(a[0]))]
    if kind == 'ibm':
        c = {(2, 1), (4, 2), (2, 0), (3, 2), (3, 4), (1, 0)}
        return [TagRemover(), LocalOptimizer(3), IBM5QubitMapper(c), SwapAndCNOTFlipper(c), LocalOptimizer(10)]
    if kind == 'setup-linear':
        import projectq.setups.linear as s
        from projectq.ops import CNOT, Swap

        return s.get_engine_list(num_qubits=4, cyclic=False, one_qubit_gates='any', two_qubit_gates=(CNOT, Swap))
    if kind == 'setup-grid':
        import projectq.setups.grid as s
        from projectq.ops import CNOT, Swap

        return s.get_engine_list(num_rows=2, num_columns=2, one_qubit_gates='any', two_qubit_gates=(CNOT, Swap))
    if kind == 'linecnot':  # swaps become CNOTs
        from projectq.ops import XGate

        def no_swap(eng, cmd):
            from projectq.ops import SwapGate

            return not isinstance(cmd.gate, SwapGate)
        return [LinearMapper(4, False, int(a[0])), AutoReplacer(DecompositionRuleSet(modules=[d])), InstructionFilter(no_swap)]
    raise KeyError(name)


class Typed:
    """Results typed in at a prompt: a fixed irregular sequence."""

    SEQ = [1, 0, 0, 1, 1, 1, 0, 1, 0, 0, 0, 1] * 20

    def __init__(self):
        self.i = self.j = 0

    def input(self, *_):
        self.i += 1
        return str(self.SEQ[self.i - 1])

    def expected(self):
        self.j += 1
        return self.SEQ[self.j - 1]


def backend(name):
    from projectq import backends as B

    if name in ('cpp', 'py'):
        return sims.make(name)
    if name == 'fusion':
        return sims.make('cpp', fusion=True)
    if name == 'classical':
        return B.ClassicalSimulator()
    if name == 'printer':
        return B.CommandPrinter(accept_input=True)
    if name == 'drawer':
        return B.CircuitDrawer(accept_input=True)
    if name == 'mpl':
        return B.CircuitDrawerMatplotlib(accept_input=True)
    raise KeyError(name)


# ---------------------------------------------------------------- one program
ALPHA = {
    'det': ['X0', 'X1', 'CX02', 'CX21', 'M0', 'M1', 'M2', 'D0', 'A', 'F'],
    'det2': ['X0', 'CX02', 'M0', 'M2', 'MA', 'L0', 'D1', 'A', 'F'],
    'ent': ['H0', 'CX02', 'CX21', 'M0', 'M2', 'MD0', 'MA', 'A', 'F'],
    'swap': ['X0', 'S02', 'S12', 'M0', 'M1', 'M2', 'MD1', 'F'],
    'four': ['X0', 'X3', 'CX03', 'CX21', 'M0', 'M3', 'D1', 'A', 'F'],
    'typed': ['X0', 'CX02', 'CX21', 'M0', 'M1', 'M2', 'MA', 'D0', 'A', 'F'],
    'one': ['X0', 'CX02', 'CX21', 'H1', 'M0', 'M1', 'M2', 'MA', 'L0', 'A'],
}


def legal(live, x):
    if x in ('A',):
        return live < 5
    if x == 'MA':
        return live > 0
    if x == 'F':
        return True
    return all(int(c) < live for c in x if c.isdigit()) and not (x.startswith('D') and live < 2)


def programs(alpha, depth, prefix, nlive, maxlive):
    def rec(p, live):
        if len(p) == depth:
            yield p
            return
        for x in ALPHA[alpha] if len(p) >= len(prefix) else [prefix[len(p)]]:
            if not legal(live, x) or (x == 'A' and live >= maxlive) or (p and p[-1] == 'F' and x == 'F'):
                continue
            yield from rec(p + [x], live + (x == 'A') - ('D' in x))
    yield from rec([], nlive)


class Unsupported(Exception):
    pass


def run_program(ctx, ch, bk, prog, nlive, single):
    from projectq import MainEngine
    from projectq.cengines import NotYetMeasuredError
    from projectq.meta import Loop
    from projectq.ops import All, CNOT, H, Measure, Swap, X
    from projectq.types import Qureg, WeakQubitRef

    ref = Branches()
    typed = Typed()
    typing = bk in ('printer', 'drawer', 'mpl')
    if typing:
        ref.typed = typed.expected
    eng = MainEngine(backend(bk), chain(ch))
    old_input, builtins.input = builtins.input, typed.input
    live, ids, measured, dead = [], [], set(), []
    where = f'{ch} {bk}'
    try:
        def alloc():
            q = eng.allocate_qubit()
            live.append(q[0])
            ids.append(q[0].id)

        def read():
            got = []
            for k, q in enumerate(live):
                try:
                    v = int(q)
                except NotYetMeasuredError:
                    got.append(None)
                    continue
                got.append(v)
                if not v == int(bool(q)) == int(Qureg([q])) == int(bool(Qureg([q]))) == int(WeakQubitRef(eng, q.id)) == int(eng.get_measurement_result(q)):
                    ctx.fail(f'{where}: reads differ', f'{where}, {prog}: qubit {k} reads differently as int, bool, register')
            return got
        for _ in range(nlive):
            alloc()
        for step, x in enumerate(prog + ['F']):
            k = x.rstrip('0123456789')
            i = [int(c) for c in x[len(k):]]
            if k == 'A':
                alloc()
            elif k == 'X':
                X | live[i[0]]
                ref.x(ids[i[0]])
            elif k == 'H':
                H | live[i[0]]
                ref.h(ids[i[0]])
            elif k == 'CX':
                CNOT | (live[i[0]], live[i[1]])
                ref.cx(ids[i[0]], ids[i[1]])
            elif k == 'S':
                Swap | ([live[i[0]]], [live[i[1]]])
                ref.swap(ids[i[0]], ids[i[1]])
            elif k == 'M':
                Measure | live[i[0]]
                ref.m(ids[i[0]])
                measured.add(ids[i[0]])
            elif k == 'MA':
                order = [1, 0] + list(range(2, len(live)))[::-1] if len(live) > 1 else [0]
                All(Measure) | Qureg([live[j] for j in order])
                for j in order:
                    ref.m(ids[j])
                    measured.add(ids[j])
            elif k == 'L':
                with Loop(eng, 3):
                    X | live[i[0]]
                    Measure | live[i[0]]
                for _ in range(3):
                    ref.x(ids[i[0]])
                    ref.m(ids[i[0]])
                measured.add(ids[i[0]])
            elif k in ('D', 'MD'):
                if k == 'MD':
                    Measure | live[i[0]]
                    ref.m(ids[i[0]])
                if not typing and not ref.free(ids[i[0]]):
                    return False
                ref.drop(ids[i[0]])
                dead.append(ids[i[0]])
                del ids[i[0]]
                del live[i[0]]
            else:
                if single and step < len(prog):
                    return False
                eng.flush()
                got = read()
                for q, v in zip(ids, got):
                    if (v is None) != (q not in measured):
                        what = 'a qubit that was never measured has a result' if v is not None else 'a measured qubit has no result'
                        ctx.fail(f'{where}: {what}', f'{where}, {prog} on {nlive} qubits, after step {step}: {what}: qubit {q}, read {dict(zip(ids, got))}')
                        return True
                before = ref.b
                if not ref.read(ids, got):
                    ctx.fail(f'{where}: wrong result', f'{where}, {prog} on {nlive} qubits, after step {step}: read {dict(zip(ids, got))}, possible are '
                             f'{[{q: o.get(q) for q in ids} for o, _ in before][:4]}')
                    return True
                ctx.state((ch, bk, tuple(got), repr(sorted(map(repr, ref.b)))))
                if len(live) > 1:
                    try:
                        int(Qureg(live))
                        ctx.fail(f'{where}: register', f'{where}: a register of {len(live)} qubits was read as a number')
                    except NotYetMeasuredError:
                        ctx.fail(f'{where}: register', 'NotYetMeasuredError')
                    except Exception:  # noqa
                        pass
            ctx.tr()
        if not typing and all(ref.free(q) for q in ids):
            eng.flush(deallocate_qubits=True)
            for q in live:
                try:
                    v = int(q)
                except NotYetMeasuredError:
                    continue
                ctx.fail(f'{where}: released qubit', f'{where}, {prog} on {nlive} qubits: a released qubit reads {v}')
        return True
    finally:
        builtins.input = old_input
        sims.sink(eng)
        for q in live:
            q.id = -1


def run(case, ctx):
    ch, bk, alpha, nlive, prefix, depth, maxlive, single = case
    for d in range(len(prefix), depth + 1):
        for p in programs(alpha, d, prefix, nlive, maxlive):
            if not any('M' in x or 'L' in x for x in p):
                continue
            if p and p[-1] in ('F', 'A', 'X0', 'X1', 'X3', 'H0', 'H1') and d < depth:
                continue  # covered by longer ones
            try:
                done = run_program(ctx, ch, bk, p, nlive, single)
            except Exception as e:  # noqa
                if single and 'cannot be mapped' in str(e).lower():
                    ctx.outcome('not mappable')
                    continue
                ctx.fail(f'{ch} {bk}: {type(e).__name__}', f'{ch} {bk}, {p} on {nlive} qubits: {type(e).__name__} {e}')
                return
            if done:
                ctx.trace()
                ctx.outcome(f'{ch} {bk}')
                if sum('M' in x for x in p) > 1 or not p[0].startswith('M'):
                    ctx.key((ch, bk, tuple(p), nlive))
            if len(ctx.violations) > 5:
                return


def cases(tier):
    T = tier == 'thorough'
    out = []

    deep = {('none', 'cpp', 'det'), ('opt:3', 'cpp', 'det'), ('full', 'cpp', 'det'), ('line:4:1000', 'cpp', 'det'), ('grid:2', 'cpp', 'det'), ('manual:rev', 'cpp', 'det'), ('setup-linear', 'cpp', 'det'),
            ('none', 'cpp', 'ent'), ('opt:1', 'cpp', 'ent'), ('line:4:1', 'cpp', 'ent'), ('ring:4:3', 'cpp', 'ent'), ('none', 'py', 'det'), ('none', 'fusion', 'ent'), ('line:4:1000', 'cpp', 'four'),
            ('line:4:1000', 'cpp', 'swap'), ('none', 'classical', 'det'), ('linecnot:1000', 'classical', 'det'), ('none', 'printer', 'typed'), ('bounded:6', 'cpp', 'det2')}

    def add(ch, bk, alpha, depth, nlive=3, maxlive=4, single=False):
        depth += (ch, bk, alpha) in deep
        for x in ALPHA[alpha]:
            if legal(nlive, x):
                out.append([ch, bk, alpha, nlive, [x], depth, maxlive, single])
    e = 1 if T else 0
    for ch in ('none', 'opt:1', 'opt:3', 'full'):
        add(ch, 'cpp', 'det', 3 + e)
        add(ch, 'cpp', 'ent', 3 + e)
    for bk in ('fusion', 'py', 'classical'):
        add('none', bk, 'det', 3 + e)
        add('opt:5', bk, 'det2', 3 + e)
        if bk != 'classical':
            add('none', bk, 'ent', 3 + e)
            add('none', bk, 'swap', 3 + e)
    add('default', 'cpp', 'det2', 3 + e)
    add('default', 'cpp', 'ent', 3 + e)
    for ch in ('line:4:1', 'line:4:1000', 'ring:4:3', 'grid:2', 'gridrel:1000', 'optline'):
        add(ch, 'cpp', 'det', 3 + e)
        add(ch, 'cpp', 'ent', 3 + e)
        add(ch, 'cpp', 'four', 3 + e, nlive=4)
        add(ch, 'cpp', 'det2', 3 + e)
        add(ch, 'cpp', 'swap', 3 + e)
    add('line:3:1000', 'cpp', 'det', 3 + e, maxlive=3)
    for ch in ('manual:rev', 'manual:mul', 'bounded:6'):
        add(ch, 'cpp', 'det', 3 + e)
        add(ch, 'cpp', 'ent', 3 + e)
        add(ch, 'classical', 'det2', 3 + e)
    add('linecnot:1000', 'classical', 'det', 3 + e)
    add('linecnot:2', 'classical', 'four', 3 + e, nlive=4)
    for ch in ('setup-linear', 'setup-grid'):
        add(ch, 'cpp', 'det', 3 + e)
        add(ch, 'cpp', 'ent', 3 + e)
    add('ibm', 'cpp', 'one', 4 + e, single=True)
    for bk in ('printer', 'drawer', 'mpl'):
        for ch in ('none', 'opt:2', 'manual:rev', 'bounded:6'):  # chains that keep the order of the measurements
            if T or bk == 'printer' or ch in ('none', 'manual:rev'):
                add(ch, bk, 'typed', 3 + e)
    return out
