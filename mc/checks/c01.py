"""C01: LocalOptimizer preserves the program (stateless exploration of all short command sequences on the real engine)."""
import itertools
import math

import numpy as np

from mc import pq, ref

ID = 'C01'
RULE = ('every sequence over the alphabet up to the tier depth x buffer sizes, run through the real optimizer between two recorders; '
        'non-trivial: the optimizer changed the command list (merged, cancelled, dropped or reordered something); '
        'states: distinct (buffer size, emitted command list); transitions: commands sent')
ASSUMPTIONS = ['tags are modelled by giving tagged gates a different matrix, so merging across tags changes the operation']

# letter -> builder name; see letters()
A2 = ['X0', 'X1', 'H0', 'T0', 'Td0', 'Rz+0', 'Rz-0', 'Rz0@1', 'Ph0', 'CX01', 'CX10', 'C0X01', 'CRz+', 'CRz-', 'CRzI', 'C0Rz+', 'CZ01',
      'CZ10', 'SW', 'Xt0', 'M0', 'M1', 'D1', 'F']
A3 = ['X0', 'Rz+0', 'CX01', 'CX12', 'CX20', 'CCX', 'C00X', 'C01X', 'CRz+', 'CRzI', 'SW', 'SW12', 'M1', 'D1', 'F']
AO = ['QXY', 'QZZ', 'QXYm', 'CQZZ', 'TE+', 'TE-', 'TEb', 'QFT', 'QFTd', 'QFTr', 'Rxx+', 'Rxx-', 'CX01', 'M0', 'F', 'UCR', 'UCR-', 'MG', 'MGi', 'Bar', 'QZY', 'CQZY', 'CQXY', 'QPEx', 'QPEyd', 'QAAa', 'QAAbd', 'SPa', 'SPbd', 'SPad', 'FB']
AW = ['Rz2pi', 'Rz3pi', 'Rzpi', 'Rx2pi', 'R2pi', 'Rpi', 'Ph2pi', 'Phpi', 'CRz2pi', 'CR2pi', 'CPh2pi', 'X0', 'CX01']
DEEP = ['X0', 'H0', 'Rz+0', 'CX01', 'CX10', 'CRzI', 'SW', 'M0']


def cases(tier):
    q = tier == 'quick'
    groups = []
    groups += [('A2', d, m) for d in (1, 2, 3) for m in (1, 2, 3, 5)]
    groups += [('AW', d, m) for d in (1, 2, 3) for m in (2, 5)]
    groups += [('AO', d, m) for d in (1, 2, 3) for m in (1, 2, 5)]
    groups += [('A3', d, m) for d in (1, 2, 3) for m in (1, 2, 3)]
    groups += [('DEEP', d, m) for d in (4, 5) for m in (2, 3)]
    groups += [('A3', 4, m) for m in ((2, ) if q else (1, 2, 3, 4))]
    if not q:
        groups += [('A2', 4, m) for m in (1, 2, 3, 5)] + [('AO', 4, m) for m in (2, 5)] + [('DEEP', 6, m) for m in (2, 3, 4)] + [('AW', 4, 5)]
        groups += [('DEEP', 7, 3)]
    out = []
    for name, d, m in groups:
        n = len(ALPH[name])
        # one case = all sequences sharing a prefix (keeps the case list small)
        k = min(d, 2)
        for pre in itertools.product(range(n), repeat=k):
            out.append([name, d, m, list(pre)])
    for n in (50, 1500) + (() if q else (4000,)):
        for shape in ('up', 'down', 'bricks', 'star', 'far', 'zigzag'):
            for m in (2, 5):
                out.append(['long', shape, n, m])
    return out


ALPH = {'A2': A2, 'A3': A3, 'AO': AO, 'AW': AW, 'DEEP': DEEP}


class ATag:
    def __eq__(self, o):
        return isinstance(o, ATag)

    def __ne__(self, o):
        return not self == o


def letters():
    from projectq import ops as O
    from projectq.meta import Control
    from projectq.types import Qureg

    def c(gate, ctrl, tgt, state=None):
        def f(eng, q):
            with Control(eng, [q[i] for i in ctrl]) if state is None else Control(eng, [q[i] for i in ctrl], state):
                if isinstance(tgt, tuple):
                    gate | tuple(q[i] for i in tgt)
                elif isinstance(tgt, list):
                    gate | [q[i] for i in tgt]
                else:
                    gate | q[tgt]
        return f

    def g(gate, *tgt):
        def f(eng, q):
            if len(tgt) == 1 and isinstance(tgt[0], list):
                gate | Qureg([q[i] for i in tgt[0]])
            else:
                gate | (q[tgt[0]] if len(tgt) == 1 else tuple(q[i] for i in tgt))
        return f

    def tagged(eng, q):
        cmd = O.X.generate_command(q[0])
        cmd.tags = [ATag()]
        eng.receive([cmd])

    def dele(eng, q):
        q[1] = None  # last reference: the qubit is released
        q[1] = eng.allocate_qubit()[0]

    def flush(eng, q):
        eng.flush()

    a = 0.3
    QO = O.QubitOperator
    H1, H2 = QO('X0 Y1'), QO('Z0 Z1', 0.5)
    W = ref.rot(ref.Y, 0.7) @ ref.T
    mg = O.MatrixGate(W)
    L = {
        'X0': g(O.X, 0), 'X1': g(O.X, 1), 'H0': g(O.H, 0), 'T0': g(O.T, 0), 'Td0': g(O.Tdag, 0),
        'Rz+0': g(O.Rz(a), 0), 'Rz-0': g(O.Rz(-a), 0), 'Rz0@1': g(O.Rz(0), 1), 'Ph0': g(O.Ph(a), 0),
        'CX01': c(O.X, [0], 1), 'CX10': c(O.X, [1], 0), 'C0X01': c(O.X, [0], 1, '0'), 'CRz+': c(O.Rz(a), [0], 1), 'CRz-': c(O.Rz(-a), [0], 1),
        'CRzI': c(O.Rz(0), [0], 1), 'C0Rz+': c(O.Rz(a), [0], 1, '0'), 'CZ01': c(O.Z, [0], 1), 'CZ10': c(O.Z, [1], 0), 'SW': g(O.Swap, 0, 1), 'Xt0': tagged,
        'M0': g(O.Measure, 0), 'M1': g(O.Measure, 1), 'D1': dele, 'F': flush,
        'CX12': c(O.X, [1], 2), 'CX20': c(O.X, [2], 0), 'CCX': c(O.X, [0, 1], 2), 'C00X': c(O.X, [0, 1], 2, '00'), 'C01X': c(O.X, [0, 1], 2, '01'),
        'SW12': g(O.Swap, 1, 2),
        'QXY': g(H1, [0, 1]), 'QZZ': g(QO('Z0 Z1'), [0, 1]), 'QXYm': g(QO('X0 Y1', -1), [0, 1]), 'CQZZ': c(QO('Z0 Z1'), [2], [0, 1]),
        'TE+': g(O.TimeEvolution(a, H1), [0, 1]), 'TE-': g(O.TimeEvolution(-a, H1), [0, 1]), 'TEb': g(O.TimeEvolution(-a, H2), [0, 1]),
        'QFT': g(O.QFT, [0, 1]), 'QFTd': g(O.get_inverse(O.QFT), [0, 1]), 'QFTr': g(O.QFT, [1, 0]),
        'Rxx+': g(O.Rxx(a), 0, 1), 'Rxx-': g(O.Rxx(-a), 0, 1),
        'QZY': g(QO('Z0 Y1'), [0, 1]), 'CQZY': c(QO('Z0 Y1'), [2], [0, 1]), 'CQXY': c(H1, [2], [0, 1]),
        'QPEx': lambda e, q: O.QPE(O.X) | ([q[0]], [q[1]]), 'QPEyd': lambda e, q: O.get_inverse(O.QPE(O.Y)) | ([q[0]], [q[1]]),
        'QAAa': lambda e, q: O.QAA(_alga, _orc) | ([q[0]], [q[1]]), 'QAAbd': lambda e, q: O.get_inverse(O.QAA(_algb, _orc)) | ([q[0]], [q[1]]),
        'SPa': g(O.StatePreparation([1, 0, 0, 0]), [0, 1]), 'SPad': g(O.get_inverse(O.StatePreparation([1, 0, 0, 0])), [0, 1]),
        'SPbd': g(O.get_inverse(O.StatePreparation([0, 1, 0, 0])), [0, 1]), 'FB': g(O.FlipBits([1, 1]), [0, 1]),
        'UCR': lambda e, q: O.UniformlyControlledRy([.1, .2]) | ([q[0]], q[1]), 'UCR-': lambda e, q: O.UniformlyControlledRy([-.1, -.2]) | ([q[0]], q[1]),
        'MG': g(mg, 0), 'MGi': g(O.get_inverse(mg), 0), 'Bar': g(O.Barrier, [0, 1]),
        'Rz2pi': g(O.Rz(2 * math.pi), 0), 'Rz3pi': g(O.Rz(3 * math.pi), 0), 'Rzpi': g(O.Rz(math.pi), 0), 'Rx2pi': g(O.Rx(2 * math.pi), 0),
        'R2pi': g(O.R(2 * math.pi - .1), 0), 'Rpi': g(O.R(math.pi), 0), 'Ph2pi': g(O.Ph(2 * math.pi - .1), 0), 'Phpi': g(O.Ph(math.pi), 0),
        'CRz2pi': c(O.Rz(2 * math.pi), [0], 1), 'CR2pi': c(O.R(.1), [0], 1), 'CPh2pi': c(O.Ph(math.pi), [0], 1),
    }
    return L


_L = None


def _alga(eng, q):
    pass


def _algb(eng, q):
    pass


def _orc(eng, q):
    pass


_OPQ = {}


def opaque(gate, n):
    """Gates without a fixed matrix (or with none): a distinct generic unitary for each distinct gate."""
    name = type(gate).__name__
    if name == 'DaggeredGate':
        return opaque(gate.get_inverse(), n).conj().T
    if name in ('QPE', 'QAA', 'StatePreparation'):
        k = (name, {'QPE': lambda: str(gate.unitary), 'QAA': lambda: gate.algorithm.__name__, 'StatePreparation': lambda: str(gate.final_state)}[name](), n)
        if k not in _OPQ:
            r = np.random.RandomState(sum(map(ord, str(k))))
            _OPQ[k] = np.linalg.qr(r.randn(2 ** n, 2 ** n) + 1j * r.randn(2 ** n, 2 ** n))[0]
        return _OPQ[k]
    return pq.matrix_of(gate, n)


def stream(cmds):
    """Reference stream; tagged gates get a conjugated matrix."""
    out = []
    for cmd in cmds:
        ops = pq.stream_of([cmd], gate_matrix=opaque)
        if cmd.tags and ops and ops[0][0] == 'u':
            assert cmd.tags == [ATag()], 'tags changed'
            o = ops[0]
            V = np.eye(1)
            for _ in o[2]:
                V = np.kron(ref.rot(ref.Y, 0.9) @ ref.T, V)
            ops = [('u', V @ o[1] @ V.conj().T, *o[2:])]
        out += ops
    return out


def run_long(case, ctx):
    """Chains of gates over many qubits, of which none can be merged: every qubit sees its gates in order, each once, nothing is held back."""
    from projectq import MainEngine
    from projectq.cengines import LocalOptimizer
    from projectq.meta import Control
    from projectq.ops import Rx, Rz
    from mc import sims

    _, shape, n, m = case
    r = range(n - 1)
    pairs = {'up': [(i, i + 1) for i in r], 'down': [(i, i + 1) for i in reversed(r)], 'bricks': [(i, i + 1) for k in (0, 1) for i in range(k, n - 1, 2)],
             'star': [(0, i) for i in range(1, min(n, 300))], 'far': [(i, n - 1 - i) for i in reversed(range(n // 2))] + [(i, i + 1) for i in reversed(r)],
             'zigzag': [(i, i + 1) for i in reversed(r)] + [(i, i + 1) for i in r if i]}[shape]
    for first in ('each', 'none'):
        before, after = pq.Recorder(), pq.Recorder()
        fed = []

        def feed(cmds):
            fed.extend((tuple(sorted(x.id for r in c.all_qubits for x in r)), str(c.gate)) for c in cmds)
            return type(before).receive(before, cmds)
        before.receive = feed
        before.is_last_engine = False
        eng = MainEngine(after, [before, LocalOptimizer(m)])
        q = eng.allocate_qureg(n)
        bad = None
        try:
            if first == 'each':
                for i, x in enumerate(q):
                    Rz(0.1 + 1e-4 * i) | x
            for k, (a, b) in enumerate(pairs):
                with Control(eng, q[a]):
                    Rx(0.5 + 1e-4 * k) | q[b]
            eng.flush()
        except BaseException as e:  # noqa
            bad = f'{type(e).__name__}: {str(e)[:80]}'
        ids = [x.id for x in q]
        for x in q:
            x.id = -1
        sims.sink(eng)
        ctx.tr(len(fed))
        ctx.trace()
        if bad is None:
            got = [(tuple(sorted(x.id for r in c.all_qubits for x in r)), str(c.gate)) for c in after.cmds]
            lines = []
            for seq in (fed, got):
                w = {}
                for c in seq:
                    for i in c[0]:
                        w.setdefault(i, []).append(c)
                lines.append(w)
            if len(fed) != len(got):
                bad = f'{len(fed)} commands came in, {len(got)} went out'
            else:
                bad = next((f'qubit {i}: {lines[0].get(i)} became {lines[1].get(i)}' for i in ids if lines[0].get(i) != lines[1].get(i)), None)
            if fed != got:
                ctx.key((shape, n, m, first))
        if bad:
            ctx.fail(f'long {shape} {n} {m} {first}', f'{shape} over {n} qubits, buffers of {m}: {bad[:300]}')
            return


def run(case, ctx):
    if case[0] == 'long':
        return run_long(case, ctx)
    global _L
    if _L is None:
        _L = letters()
    name, d, m, pre = case[:4]
    alpha = ALPH[name]
    if len(case) > 4:  # replay of one sequence
        seqs = [tuple(case[4])]
    else:
        seqs = itertools.product(range(len(alpha)), repeat=d - len(pre))
        seqs = (tuple(pre) + s for s in seqs)
    nq = 3 if name in ('A3', 'AO') else 2
    for seq in seqs:
        words = [alpha[i] for i in seq]
        try:
            bad, strs = one(words, nq, m, ctx)
        except Exception as e:  # noqa
            if isinstance(e, pq.Unknown):
                raise
            bad, strs = f'raised {type(e).__name__}: {str(e)[:300]}', ('', '')
        ctx.state((m, strs[1]))
        ctx.trace()
        if bad:
            ctx.case = [name, d, m, pre, list(seq)]
            ctx.fail('optimizer ' + ' '.join(words) + f' m={m}', f'{bad}\n in: {strs[0]}\nout: {strs[1]}')
            if len(ctx.violations) > 5:
                return


def one(words, nq, m, ctx):
    from projectq import MainEngine
    from projectq.cengines import LocalOptimizer

    if True:
        tap, out = pq.Recorder(), pq.Recorder()
        eng = MainEngine(out, [tap, LocalOptimizer(m)])
        q = list(eng.allocate_qureg(nq))
        for w in words:
            _L[w](eng, q)
        eng.flush()
        n_before = len(out.cmds)
        eng.flush()
        src, dst = list(tap.cmds), list(out.cmds)
        ctx.tr(len(src))
        bad = None
        if len(dst) != n_before + 1:
            bad = 'a second flush released further commands'
        s_src, s_dst = segs(src), segs(dst)
        if len(s_src) != len(s_dst):
            bad = 'a flush was lost or duplicated'
        strs = pq.show(src[nq:]), pq.show(dst[nq:])
        if not bad and strs[0] != strs[1]:
            ctx.key(strs)
            ids = list(range(nq))
            # equal up to every flush; a common prefix of flushes is implied by prefixes
            ps, pd = [], []
            for k in range(len(s_src)):
                ps += s_src[k]
                pd += s_dst[k]
                if k >= len(s_src) - 1:
                    continue
                try:
                    ss, sd = stream(ps), stream(pd)
                    # a qubit of which nothing is left was allocated and released for nothing: it must have been |0> throughout
                    gone = {o[1] for o in ss if o[0] == 'alloc'} - {o[1] for o in sd if o[0] == 'alloc'}
                    inp = [i for i in ids if i not in gone]
                    a, b = ref.run_stream(ss, inputs=inp, dealloc_zero=gone), ref.run_stream(sd, inputs=inp)
                except ref.StreamError as e:
                    bad = f'{e}'
                    break
                if not ref.same_op(a, b):
                    bad = f'operation differs after flush {k + 1}'
                    break
                if len(pd) > len(ps):
                    bad = 'more commands out than in'
                    break
        ctx.outcome(len(src) - len(dst))
        q = None
        return bad, strs


def segs(cmds):
    """Split at flushes (the last segment is after the last flush)."""
    out, cur = [], []
    for c in cmds:
        if type(c.gate).__name__ == 'FlushGate':
            out.append(cur)
            cur = []
        else:
            cur.append(c)
    out.append(cur)
    return out
