"""C11: the classical simulator against a plain array of bits."""
import itertools

from mc import pq, sims

ID = 'C11'
RULE = ('all histories up to a depth over allocation (single, register), release, (negatively) controlled NOT, arithmetic with permuted registers and controls, measurement, bit and register '
        'writes x engine lists (none, static mapper, moving mapper); after every operation every bit, two register orders and every measurement are compared with a dict of bits; plus all gates that '
        'must be refused. Non-trivial: some bit is 1')
ASSUMPTIONS = ['reads go through the public read_bit/read_register after a flush']
CHUNK = 4

LETTERS = ['alloc', 'reg2', 'free0', 'free1', 'freel', 'X0', 'Xl', 'CX0l', 'nCXl0', 'CCX', 'mixCX', 'add', 'addr', 'cinc', 'nadd', 'addq', 'mul', 'M0', 'Ml', 'wl1', 'wl0', 'wreg', 'flush']
SMALL = ['alloc', 'free0', 'freel', 'X0', 'Xl', 'CX0l', 'nCXl0', 'addr', 'nadd', 'Ml', 'wreg', 'free1']


def cases(tier):
    T = tier != 'quick'
    out = []
    for eng in ('plain', 'manual', 'linear'):
        for a in LETTERS:
            for b in LETTERS:
                out.append(['hist', eng, [a, b], 'full', 1 if eng != 'plain' and not T else 2])
        if T:
            for a in SMALL:
                for b in SMALL:
                    out.append(['hist', eng, [a, b], 'small', 3 if eng != 'plain' else 4])
        elif eng != 'linear':
            for a in SMALL:
                for b in SMALL:
                    out.append(['hist', eng, [a, b], 'small', 2 if eng != 'plain' else 3])
    out += [['refuse', i] for i in range(len(refusals()))]
    out += [['avail']]
    return out


def run(case, ctx):
    if case[0] == 'refuse':
        return run_refuse(case, ctx)
    if case[0] == 'avail':
        return run_avail(ctx)
    _, eng, prefix, alpha, more = case
    for tail in itertools.product(LETTERS if alpha == 'full' else SMALL, repeat=more):
        if history(list(prefix) + list(tail), eng, ctx) is False:
            return


def engines(kind):
    from projectq.cengines import LinearMapper, ManualMapper

    if kind == 'manual':
        return [ManualMapper(lambda i: 11 - i if i % 2 else 20 + 3 * i)]
    if kind == 'linear':
        from projectq.cengines import AutoReplacer, DecompositionRuleSet
        from projectq.setups.decompositions import swap2cnot

        return [LinearMapper(num_qubits=5), AutoReplacer(DecompositionRuleSet(modules=[swap2cnot]))]
    return []


class Skip(Exception):
    pass


def apply(op, q, v, sim, eng, last):
    """one operation on the real engine and on the bits v (list parallel to q)"""
    from projectq import ops as O
    from projectq.libs.math import AddConstant, AddQuantum, MultiplyByConstantModN
    from projectq.meta import Control

    n = len(q)

    def need(k):
        if n < k:
            raise Skip

    def num(idx):
        return sum(v[i] << k for k, i in enumerate(idx))

    def put(idx, x):
        for k, i in enumerate(idx):
            v[i] = x >> k & 1
    if op == 'alloc':
        if n >= 5:
            raise Skip
        q.append(eng.allocate_qubit()[0])
        v.append(0)
    elif op == 'reg2':
        if n >= 4:
            raise Skip
        r = eng.allocate_qureg(2)
        q.extend(r)
        v.extend([0, 0])
    elif op.startswith('free'):
        i = n - 1 if op == 'freel' else int(op[4])
        if i >= n or i < 0:
            raise Skip
        x = q.pop(i)
        v.pop(i)
        x.__del__()
    elif op in ('X0', 'Xl'):
        need(1)
        i = 0 if op == 'X0' else n - 1
        O.X | q[i]
        v[i] ^= 1
    elif op == 'CX0l':
        need(2)
        O.CNOT | (q[0], q[-1])
        v[-1] ^= v[0]
    elif op == 'nCXl0':
        need(2)
        with Control(eng, q[-1], '0'):
            O.X | q[0]
        v[0] ^= 1 - v[-1]
    elif op == 'CCX':
        need(3)
        O.Toffoli | (q[2], q[0], q[1])
        v[1] ^= v[2] & v[0]
    elif op == 'mixCX':
        need(3)
        with Control(eng, [q[0], q[2]], '01'):
            O.X | q[1]
        v[1] ^= (1 - v[0]) & v[2]
    elif op in ('add', 'addr'):
        need(1)
        idx = list(range(n)) if op == 'add' else list(range(n))[::-1]
        AddConstant(3 if op == 'add' else -1) | [q[i] for i in idx]
        put(idx, (num(idx) + (3 if op == 'add' else -1)) % 2 ** n)
    elif op == 'cinc':
        need(3)
        with Control(eng, q[-1]):
            AddConstant(1) | [q[1], q[0]]
        if v[-1]:
            put([1, 0], (num([1, 0]) + 1) % 4)
    elif op == 'addq':
        need(4)
        AddQuantum | ([q[0], q[3]], [q[2], q[1]])
        put([2, 1], (num([2, 1]) + num([0, 3])) % 4)
    elif op == 'mul':
        need(3)
        if num([0, 2]) == 3:
            raise Skip
        MultiplyByConstantModN(2, 3) | [q[0], q[2]]
        put([0, 2], num([0, 2]) * 2 % 3)
    elif op == 'nadd':
        need(3)
        with Control(eng, q[0], '0'):
            AddConstant(2) | [q[2], q[1]]
        if not v[0]:
            put([2, 1], (num([2, 1]) + 2) % 4)
    elif op in ('M0', 'Ml'):
        need(1)
        i = 0 if op == 'M0' else n - 1
        O.Measure | q[i]
        eng.flush()
        if int(q[i]) != v[i]:
            return f'measured {int(q[i])} instead of {v[i]}'
    elif op in ('wl1', 'wl0'):
        need(1)
        eng.flush()
        v[-1] = int(op[2])
        sim.write_bit(q[-1], v[-1])
    elif op == 'wreg':
        need(2)
        eng.flush()
        idx = [n - 1, 0]
        put(idx, 1)
        sim.write_register([q[i] for i in idx], 1)
    elif op == 'flush':
        eng.flush()
    return None


def history(w, kind, ctx):
    from projectq import MainEngine
    from projectq.backends import ClassicalSimulator

    sim = ClassicalSimulator()
    eng = MainEngine(sim, engines(kind))
    q = [eng.allocate_qubit()[0], eng.allocate_qubit()[0]]
    v = [0, 0]
    sig = f'{kind}: {" ".join(w)}'
    bad = None
    lazy = kind == 'linear'
    try:
        for k, op in enumerate(w):
            if lazy and (op in ('CCX', 'mixCX', 'cinc', 'nadd', 'addq') or op.startswith('add') and len(q) > 2):
                raise Skip  # line mapping is for gates on at most two qubits
            bad = apply(op, q, v, sim, eng, k == len(w) - 1)
            ctx.tr()
            if bad:
                break
            if (lazy or op == 'M0') and k < len(w) - 1:
                continue  # reading needs a flush, which would make every history the same one
            eng.flush()
            got = [sim.read_bit(x) for x in q]
            if got != v:
                bad = f'bits {got}, expected {v}'
                break
            for idx in (list(range(len(q))), list(range(len(q)))[::-1]):
                if sim.read_register([q[i] for i in idx]) != sum(v[i] << j for j, i in enumerate(idx)):
                    bad = f'register {idx} reads {sim.read_register([q[i] for i in idx])}, bits {v}'
    except Skip:
        return
    finally:
        while q:
            q.pop().id = -1
        sims.sink(eng)
    ctx.trace()
    ctx.state((kind, tuple(v)))
    if any(v):
        ctx.key(sig)
    if bad:
        ctx.fail(sig, bad)
        return False


def unsupported():
    from projectq import ops as O

    return [('H', O.H, 1), ('Y', O.Y, 1), ('Z', O.Z, 1), ('S', O.S, 1), ('T', O.T, 1), ('SqrtX', O.SqrtX, 1), ('Rx(pi)', O.Rx(3.141592653589793), 1), ('Ry', O.Ry(.1), 1), ('Rz', O.Rz(.1), 1), ('R', O.R(.1), 1), ('Ph', O.Ph(.1), 1),
            ('Matrix X', O.MatrixGate([[0, 1], [1, 0]]), 1), ('Swap', O.Swap, 2), ('SqrtSwap', O.SqrtSwap, 2), ('Rxx', O.Rxx(.1), 2), ('QFT', O.QFT, 2), ('Entangle', O.Entangle, 2), ('QubitOperator', O.QubitOperator('X0'), 1),
            ('TimeEvolution', O.TimeEvolution(1, O.QubitOperator('X0')), 1), ('Barrier', O.Barrier, 2), ('Allocate dirty', O.AllocateDirty, 1)]


def run_avail(ctx):
    """availability as reported, and refusal of every other gate without touching a bit"""
    from projectq import MainEngine
    from projectq import ops as O
    from projectq.backends import ClassicalSimulator
    from projectq.libs.math import AddConstant, AddQuantum, MultiplyByConstantModN

    sim = ClassicalSimulator()
    eng = MainEngine(sim, [])
    q = eng.allocate_qureg(3)
    eng.flush()
    for v in range(8):
        for name, g, k in unsupported():
            for c in range(0, 3 - k + 1):
                sim.write_register(q, v)
                cmd = O.Command(eng, g, ([q[i] for i in range(k)],) if name in ('QFT', 'Entangle', 'Barrier', 'QubitOperator', 'TimeEvolution') else tuple([q[i]] for i in range(k)), controls=[q[2 - i] for i in range(c)])
                ctx.trace()
                ctx.tr()
                ctx.key((name, v, c))
                if sim.is_available(cmd):
                    ctx.fail(f'avail {name}', 'reported as available')
                got = None
                try:
                    sim.receive([cmd])
                except Exception as e:  # noqa
                    got = e
                if not isinstance(got, ValueError):
                    ctx.fail(f'avail {name} controls={c}', f'not refused: {got!r}')
                if sim.read_register(q) != v:
                    ctx.fail(f'avail {name} controls={c}', 'the refused gate changed bits')
    for name, g, k in (('X', O.X, 1), ('Add', AddConstant(1), 1), ('AddQ', AddQuantum, 2), ('Mul', MultiplyByConstantModN(2, 3), 1), ('Measure', O.Measure, 1), ('Allocate', O.Allocate, 1),
                       ('Deallocate', O.Deallocate, 1), ('Flush', O.FlushGate(), 1)):
        ctx.trace()
        if not sim.is_available(O.Command(eng, g, tuple([q[i]] for i in range(k)))):
            ctx.fail(f'avail {name}', 'reported as unavailable')
    q = None
    sims.sink(eng)


def refusals():
    from projectq import ops as O
    from projectq.types import WeakQubitRef

    def ghost(e):
        return WeakQubitRef(e, 99)
    return [
        ('read unknown bit', lambda e, s, q: s.read_bit(ghost(e))),
        ('write unknown bit', lambda e, s, q: s.write_bit(ghost(e), 1)),
        ('read register with unknown bit', lambda e, s, q: s.read_register([q[0], ghost(e)])),
        ('write register with unknown bit', lambda e, s, q: s.write_register([ghost(e), q[0]], 1)),
        ('value too large', lambda e, s, q: s.write_register(list(q), 8)),
        ('value too large for two', lambda e, s, q: s.write_register([q[2], q[0]], 4)),
        ('negative value', lambda e, s, q: s.write_register(list(q), -1)),
        ('X on two registers', lambda e, s, q: s.receive([O.Command(e, O.X, ([q[0]], [q[1]]))])),
        ('X on a register', lambda e, s, q: s.receive([O.Command(e, O.X, ([q[0], q[1]],))])),
        ('X on an unknown bit', lambda e, s, q: s.receive([O.Command(e, O.X, ([ghost(e)],))])),
        ('CNOT with an unknown control', lambda e, s, q: s.receive([O.Command(e, O.X, ([q[0]],), controls=[ghost(e)])])),
        ('release of an unknown bit', lambda e, s, q: s.receive([O.Command(e, O.Deallocate, ([ghost(e)],))])),
        ('measurement of an unknown bit', lambda e, s, q: s.receive([O.Command(e, O.Measure, ([ghost(e)],))])),
    ]


def run_refuse(case, ctx):
    from projectq import MainEngine
    from projectq.backends import ClassicalSimulator

    label, f = refusals()[case[1]]
    for kind in ('plain', 'manual'):
        for v in range(8):
            sim = ClassicalSimulator()
            eng = MainEngine(sim, engines(kind))
            q = list(eng.allocate_qureg(3))
            eng.flush()
            sim.write_register(q, v)
            got = None
            if kind == 'manual' and ('X on' in label or 'CNOT' in label or 'release' in label or 'measurement' in label):
                continue
            try:
                f(eng, sim, q)
            except Exception as e:  # noqa
                got = e
            ctx.trace()
            ctx.tr()
            ctx.key((label, v))
            if got is None:
                ctx.fail(f'refuse {label}', f'not refused ({kind})')
            elif sim.read_register(q) != v:
                ctx.fail(f'refuse {label}', f'bits changed from {v} to {sim.read_register(q)} ({kind})')
            while q:
                q.pop().id = -1
            sims.sink(eng)
