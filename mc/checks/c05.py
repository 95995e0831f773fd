"""C05: every decomposition rule implements the gate it replaces."""
import itertools
import math

import numpy as np

from mc import pq, ref, setups

ID = 'C05'
RULE = ('(rule) every shipped rule x every gate of the pool it recognises x number of controls x order of the qubits; (repl) the gate replacer with all rules, for every target '
        'gate set x gate x control values x choice strategy; non-trivial: the rule emitted at least two commands')
ASSUMPTIONS = ['the textbook matrices of mc/ref.py', 'rules other than the control-state rule are applied to positive controls only, as the replacer does']
CHUNK = 4
PI = math.pi
ANGLES = [0, .3, -.3, 1e-13, 3e-12, 1e-7, PI / 4, PI / 2, PI, 3 * PI / 2, 2 * PI - .3, 2 * PI, 2 * PI + .3, 3 * PI, 7 * PI / 2, 4 * PI - .3, 4 * PI - 1e-13, 1.234567890123]
ANG2 = [0, .3, PI / 2, PI, 2 * PI, 3 * PI, 4 * PI - .3]
MGRID = [0, .4, PI / 2, PI, 3 * PI / 2, 2 * PI, 5.1]


def pool(tier='quick'):
    """(name, builder of gate, list of register sizes)"""
    from projectq import ops as O

    P = []
    for n in ('X', 'Y', 'Z', 'H', 'S', 'T', 'Sdag', 'Tdag', 'SqrtX'):
        P.append((n, getattr(O, n), [1]))
    P.append(('SqrtXdag', O.get_inverse(O.SqrtX), [1]))
    P.append(('Hdag', O.DaggeredGate(O.S), [1]))
    for n in ('Rx', 'Ry', 'Rz', 'R', 'Ph'):
        for a in ANGLES:
            P.append((f'{n}({a})', getattr(O, n)(a), [1]))
    for n in ('Rxx', 'Ryy', 'Rzz'):
        for a in (.3, PI / 2):
            P.append((f'{n}({a})', getattr(O, n)(a), [1, 1]))
    for n in ('Swap', 'SqrtSwap'):
        P.append((n, getattr(O, n), [1, 1]))
    P.append(('SqrtSwapdag', O.get_inverse(O.SqrtSwap), [1, 1]))
    for k in (1, 2, 3, 4):
        P.append((f'QFT{k}', O.QFT, [k]))
        P.append((f'QFTdag{k}', O.get_inverse(O.QFT), [k]))
    for k in (1, 2, 3):
        P.append((f'Entangle{k}', O.Entangle, [k]))
        P.append((f'Entangledag{k}', O.get_inverse(O.Entangle), [k]))
        P.append((f'Barrier{k}', O.Barrier, [k]))
    g = [.3, PI, 2 * PI, 0, 5 * PI / 2]
    for cls in (O.UniformlyControlledRy, O.UniformlyControlledRz):
        for k in (0, 1, 2):
            vs = list(itertools.product(g if k < 2 else [.3, 2 * PI, 3.7], repeat=2 ** k))
            for v in vs:
                P.append((f'{cls.__name__}{v}', cls(list(v)), [k, 1]))
        P.append((f'{cls.__name__}3', cls([.1 * i * i for i in range(8)]), [3, 1]))
        P.append((f'{cls.__name__}3i', O.get_inverse(cls([.1 * i * i for i in range(8)])), [3, 1]))
        P.append((f'{cls.__name__}4', cls([.07 * i * i + .1 for i in range(16)]), [4, 1]))
    for v in state_vectors():
        P.append((f'StatePrep{np.round(v, 3).tolist()}', O.StatePreparation(list(v)), [int(math.log2(len(v)))]))
    for t in ('', 'X0', 'Y0', 'Z0', 'X0 Y1', 'Z0 X1', 'Y0 Z1 X2', 'Z0 Z1', 'Y0 Y1'):
        for c in (1, -1, 1j, np.exp(.7j)):
            n = max([int(x[1:]) + 1 for x in t.split()] or [1])
            P.append((f'QubitOp {c} {t}', O.QubitOperator(t, c), [n]))
    for t in ('X0', 'Y0', 'Z0', 'X0 X1', 'X0 Y1', 'Y0 Z1', 'Z0 Z1', 'X0 Z1 Y2', 'Z0 Z1 Z2', 'Y0 X1 Y2 Z3'):
        for c in (.5, -1.3):
            n = max(int(x[1:]) + 1 for x in t.split())
            for tm in (.3, -.7, 0., 5):
                P.append((f'TE {tm} {c} {t}', O.TimeEvolution(tm, O.QubitOperator(t, c)), [n]))
    for ts in (('X0', 'Z1'), ('X0 X1', 'Z0 Z1'), ('Z0', 'Z1'), ('Z0 Z1', ''), ('Y0 Y1', 'X0 X1', ''), ('X0', 'Z0'), ('Z0', 'Z0 Z1', 'Z1'), ('X0 Z1', 'Y0', 'Z0 Z1'), ('X0', 'Y1', 'Z2')):
        h = O.QubitOperator()
        for i, t in enumerate(ts):
            h += O.QubitOperator(t, .4 + .3 * i)
        n = max(int(x[1:]) + 1 for t in ts for x in t.split())
        for tm in (.3, -1.1):
            P.append((f'TE {tm} {ts}', O.TimeEvolution(tm, h), [n]))
        for k in (-7, -5, 5):  # the same evolutions in other units of time
            P.append((f'TE units {k} {ts}', O.TimeEvolution(.3 / 10.0 ** k, h * 10.0 ** k), [n]))
    return P


def state_vectors():
    out = []
    vals = [1, -1, 1j, 0]
    for v in itertools.product(vals, repeat=2):
        out.append(v)
    for v in itertools.product([1, 0, -1j], repeat=4):
        out.append(v)
    out.append((1, 2, 3, 4j, -5, 6, 7 - 1j, 8))
    out.append((0, 0, 0, 0, 0, 0, 1, 0))
    out.append((1, 0, 0, 0, 0, 0, 0, -1))
    out.append(tuple(np.exp(1j * k * k) for k in range(16)))
    res = []
    for v in out:
        v = np.array(v, dtype=complex)
        n = np.linalg.norm(v)
        if n > 0:
            res.append(v / n)
    return res


def matrix_grid(tier):
    g = MGRID if tier == 'quick' else sorted(MGRID + [1e-7, 3.3, 2 * PI - .4, 7 * PI / 4])
    return [list(x) for x in itertools.product(g, repeat=4)]


TARGETS = {
    'cx1': lambda g, nc, n: n == 1 or nc == 1 and n == 2 and g == 'XGate',
    'cz1': lambda g, nc, n: n == 1 or nc == 1 and n == 2 and g == 'ZGate',
    'rzhcx': lambda g, nc, n: nc == 0 and g in ('Rz', 'HGate', 'Ph') or nc == 1 and n == 2 and g == 'XGate',
    'rzrxcx': lambda g, nc, n: nc == 0 and g in ('Rz', 'Rx') or nc == 1 and n == 2 and g == 'XGate',
    'ion': lambda g, nc, n: nc == 0 and g in ('Rx', 'Ry', 'Rxx', 'Ph'),
    'ry_rz_cx': lambda g, nc, n: nc == 0 and g in ('Ry', 'Rz', 'Ph', 'Rx') or nc == 1 and n == 2 and g == 'XGate',
    'tof': lambda g, nc, n: nc == 0 and n == 1 or nc == 2 and g == 'XGate' or nc == 1 and g == 'XGate',
    'ctl1': lambda g, nc, n: n - nc == 1 and nc <= 1,
}


def cases(tier):
    P = pool(tier)
    out = []
    for i in range(len(P)):
        out.append(['rule', i, P[i][0]])
    m = matrix_grid(tier)
    for i in range(0, len(m), 24):
        out.append(['mat', m[i:i + 24]])
    small = [(i, p) for i, p in enumerate(P) if replaced(p, tier)]
    for i, p in small:
        out.append(['repl', i, p[0]])
    return out


def replaced(p, tier):
    n = p[0]
    if n.startswith('StatePrep') and tier == 'quick':
        return len(n) < 32 and sum(map(ord, n)) % 3 == 0 or len(p[1].final_state) == 8
    if n.startswith('Uniformly') and tier == 'quick':
        return sum(p[2]) <= 2 and sum(map(ord, n)) % 3 == 0 or n[-2:] in ('Ry3', '3i')
    if n.startswith('QubitOp') and tier == 'quick':
        return '-1' in n or '0.' in n
    return True


_S = {}


def rules():
    if 'rules' not in _S:
        import projectq.setups.decompositions as D

        out = []
        for m in sorted((m for m in vars(D).values() if hasattr(m, 'all_defined_decomposition_rules')), key=lambda m: m.__name__):
            for r in m.all_defined_decomposition_rules:
                out.append((m.__name__.split('.')[-1] + '.' + r.gate_decomposer.__name__, r))
        _S['rules'] = out
    return _S['rules']


def all_rules_module():
    import projectq.setups.decompositions as D

    return D


def expected_matrix(gate, n):
    """reference matrix; StatePreparation: None"""
    return pq.matrix_of(gate, n)


def prep_matrix(v):
    """a unitary whose first column is v"""
    n = len(v)
    M = np.eye(n, dtype=complex)
    M[:, 0] = v
    q, r = np.linalg.qr(M if abs(v[0]) > 1e-9 else np.column_stack([v, *[np.eye(n)[:, k] for k in range(n) if k != int(np.argmax(np.abs(v)))]]))
    q = q * (np.diag(r) / np.abs(np.diag(r)))
    assert np.allclose(q[:, 0], v)
    return q


def gm(gate, n):
    name = type(gate).__name__
    if name == 'StatePreparation':
        return prep_matrix(np.array(gate.final_state))
    if name == 'DaggeredGate':
        return gm(gate.get_inverse(), n).conj().T
    return pq.matrix_of(gate, n)


def columns(n, ids, zero):
    """columns of the operator on n qubits where the qubits in zero are |0>"""
    return [c for c in range(2 ** n) if not any(c >> ids.index(z) & 1 for z in zero)]


def compare(got, want, cols):
    if set(got) != {()} or set(want) != {()}:
        return 'measurements appeared'
    if got[()].shape != want[()].shape:
        return 'different qubits'
    return None if ref.same_op(got[()][:, cols], want[()][:, cols], up_to_phase=True, tol=2e-6) else 'wrong operation'


def apply(gate, sizes, order, nctl, state, eng):
    """allocate qubits (ids in allocation order), apply gate with registers and controls placed by order."""
    from projectq.meta import Control

    n = sum(sizes)
    q = list(eng.allocate_qureg(n + nctl + 1))  # one spectator
    pos = [q[i] for i in order]
    regs, k = [], 0
    for s in sizes:
        regs.append(pos[k:k + s])
        k += s
    ctl = pos[k:]
    if nctl:
        with Control(eng, ctl, state):
            gate | tuple(regs)
    else:
        gate | tuple(regs)
    return q, [x.id for r in regs for x in r], [c.id for c in ctl]


def orders(m, spectator=True, limit=None):
    """placements of m qubits among m+1 wires (one is a spectator)"""
    allp = list(itertools.permutations(range(m + 1), m))
    if m > 3:
        ident = tuple(range(m))
        allp = [ident, tuple(range(1, m + 1)), tuple(range(m, 0, -1)), tuple(range(1, m + 1))[::2] + tuple(range(1, m + 1))[1::2], (m, *range(m - 1))]
    elif m == 3:
        allp = allp[::3] + [(0, 1, 2), (2, 1, 0)]
    return allp


def run(case, ctx):
    return globals()['run_' + case[0]](case, ctx)


def one_rule(gate, sizes, nctl, order, ctx, sig):
    """apply every rule that recognises the command"""
    from projectq import MainEngine

    n = sum(sizes)
    rec = pq.Recorder()
    eng = MainEngine(rec, [])
    q, t, c = apply(gate, sizes, order, nctl, '1' * nctl, eng)
    ids = [x.id for x in q]
    pre = rec.cmds[:len(ids)]
    src = rec.cmds[len(ids):]
    if len(src) != 1:
        return
    cmd = src[0]
    want = None
    zero = t if 'StatePreparation' in type(cmd.gate).__name__ else []
    hit = 0
    for name, r in rules():
        if not isinstance(r.gate_class, type) or not isinstance(cmd.gate, r.gate_class) or name.startswith('controlstate') or name.split('.')[0] in ('amplitudeamplification', 'phaseestimation'):
            continue
        from copy import deepcopy

        k = deepcopy(cmd)
        if not r.gate_recognizer(k):
            continue
        hit += 1
        del rec.cmds[:]
        k.engine = eng
        r.gate_decomposer(k)
        out = list(rec.cmds)
        if want is None:
            st = [('alloc', i) for i in ids] + [('u', gm(gate, n), t, c, [1] * nctl)]
            want = ref.run_stream(st, inputs=ids, outputs=ids)
        ctx.tr(len(out))
        ctx.trace()
        ctx.outcome(name)
        if len(out) > 1:
            ctx.key((sig, name, order, nctl))
        ctx.state(pq.show(out))
        msg = None
        try:
            got = pq.compiled_result(pre + out, ids, None, gate_matrix=gm)
            msg = compare(got, want, columns(len(ids), ids, zero))
        except ref.StreamError as e:
            msg = str(e)
        if msg:
            ctx.fail(f'{name}: {sig} controls={nctl}', f'{msg}: order {order}\n{pq.show(out)}')
            return False
    return hit


def run_rule(case, ctx):
    if 'pool' not in _S:
        _S['pool'] = pool()
    name, gate, sizes = _S['pool'][case[1]]
    assert name == case[2]
    n = sum(sizes)
    for nctl in range(0, 5):
        if n + nctl > 5:
            break
        for o in orders(n + nctl)[:: 1 if n + nctl < 4 else 2]:
            if one_rule(gate, sizes, nctl, o, ctx, name) is False:
                return


def run_mat(case, ctx):
    from projectq.ops import MatrixGate

    for a, b, c, d in case[1]:
        M = np.exp(1j * d) * ref.rot(ref.Z, a) @ ref.rot(ref.Y, b) @ ref.rot(ref.Z, c)
        for nctl in (0, 1, 2):
            if one_rule(MatrixGate(M), [1], nctl, (0, 1, 2)[:1 + nctl] if nctl != 1 else (1, 0), ctx, f'matrix {a, b, c, d}') is False:
                return


def strategies():
    return {'first': lambda cmd, l: l[0], 'last': lambda cmd, l: l[-1]}


def run_repl(case, ctx):
    from projectq import MainEngine
    from projectq.cengines import AutoReplacer, DecompositionRuleSet, InstructionFilter, TagRemover

    if 'pool' not in _S:
        _S['pool'] = pool()
    name, gate, sizes = _S['pool'][case[1]]
    n = sum(sizes)
    refused = setups.refused('C05', name)
    for tgt, pred in TARGETS.items():
        for nctl in range(0, 4):
            if n + nctl > 4 and not (nctl == 0 and n == 5) or (nctl == 3 and n > 1):
                continue
            for state in (['1' * nctl] if nctl == 0 or len(name) > 20 and nctl > 1 else [''.join(s) for s in itertools.product('01', repeat=nctl)]):
                for strat, ch in strategies().items():
                    if strat == 'last' and (tgt not in ('ion', 'rzrxcx', 'cx1') or nctl > 1):
                        continue
                    key = f'{tgt} {nctl} {state} {strat}'
                    sig = f'{name} {key}'

                    def avail(eng, cmd):
                        from projectq.ops import ClassicalInstructionGate

                        if isinstance(cmd.gate, ClassicalInstructionGate):
                            return True
                        if '0' in cmd.control_state:
                            return False
                        nc = len(cmd.control_qubits)
                        return bool(pred(type(cmd.gate).__name__, nc, nc + sum(len(r) for r in cmd.qubits)))

                    rec = pq.Recorder()
                    eng = MainEngine(rec, [AutoReplacer(DecompositionRuleSet(modules=[all_rules_module()]), ch), TagRemover(), InstructionFilter(avail)])
                    from projectq.meta import Control

                    q = list(eng.allocate_qureg(n + nctl))
                    ids = [x.id for x in q]
                    pos = q[::-1] if nctl else q
                    regs, k = [], 0
                    for s in sizes:
                        regs.append(pos[k:k + s])
                        k += s
                    t, c = [x.id for r in regs for x in r], [x.id for x in pos[k:]]
                    err = None
                    try:
                        if nctl:
                            with Control(eng, pos[k:], state):
                                gate | tuple(regs)
                        else:
                            gate | tuple(regs)
                    except Exception as e:  # noqa
                        err = type(e).__name__
                        sink = pq.Recorder()
                        sink.is_last_engine, sink.measure = True, None
                        eng.next_engine = sink
                    ctx.trace()
                    ctx.tr(len(rec.cmds))
                    if err:
                        ctx.outcome(f'refused {tgt}')
                        if 'collect' in _S:
                            _S['collect'].append((name, key))
                        elif key not in refused:
                            ctx.fail(sig, f'not replaced: {err}')
                            return
                        continue
                    ctx.key(sig)
                    bad = [x for x in rec.cmds if not avail(None, x)]
                    if bad:
                        ctx.fail(sig, f'{pq.str_cmd(bad[0])} is not in the target gate set')
                        return
                    st = [('alloc', i) for i in ids] + [('u', gm(gate, n), t, c, [int(s) for s in state] if nctl else [])]
                    zero = t if name.startswith('StatePrep') else []
                    try:
                        got = pq.compiled_result(rec.cmds, ids, None, gate_matrix=gm)
                        msg = compare(got, ref.run_stream(st, inputs=ids, outputs=ids), columns(len(ids), ids, zero))
                    except ref.StreamError as e:
                        msg = str(e)
                    if msg:
                        ctx.fail(sig, f'{msg}\n{pq.show(rec.cmds)}')
                        return
                    q = pos = regs = None
