"""Bridge: record what the real engines emit, and read projectq commands into the reference model."""
import numpy as np

from . import ref


class Unknown(Exception):
    pass


def _import():
    import projectq  # noqa
    from projectq import cengines, ops

    return cengines, ops


_Recorder = None


def Recorder(available=None, measure=0, **kw):
    """A backend that records every command it receives."""
    global _Recorder
    if _Recorder is None:
        from projectq.cengines import BasicEngine
        from projectq.ops import Measure
        from projectq.types import WeakQubitRef

        class _R(BasicEngine):
            def __init__(self, available, measure):
                super().__init__()
                self.cmds = []
                self.available = available
                self.measure = measure

            def is_available(self, cmd):
                return True if self.available is None else self.available(cmd)

            def receive(self, command_list):
                from projectq.meta import LogicalQubitIDTag

                for cmd in command_list:
                    self.cmds.append(cmd)
                    if self.is_last_engine and cmd.gate == Measure and self.measure is not None:
                        for qr in cmd.qubits:
                            for q in qr:
                                i = q.id
                                for t in cmd.tags:
                                    if isinstance(t, LogicalQubitIDTag):
                                        i = t.logical_qubit_id
                                self.main_engine.set_measurement_result(WeakQubitRef(self.main_engine, i), self.measure)
                if not self.is_last_engine:
                    self.send(command_list)

        _Recorder = _R
    return _Recorder(available, measure)


def matrix_of(gate, n=None):
    """Reference matrix of a projectq gate object, by what kind of gate it is and its parameters."""
    name = type(gate).__name__
    if name in ref.FIXED:
        return ref.FIXED[name]
    if name in ref.ANGLE:
        return ref.ANGLE[name](gate.angle)
    if name == 'DaggeredGate':
        return matrix_of(gate.get_inverse(), n).conj().T
    if name in ('MatrixGate',):
        return np.asarray(gate.matrix, dtype=complex)
    if name in ('BarrierGate', 'ClassicalInstructionGate'):
        return np.eye(2 ** n)
    if name == 'QFTGate':
        return ref.qft(n)
    if name == 'EntangleGate':
        M = np.eye(1)
        st = ref.State.inputs(list(range(n)))
        st.apply(ref.H, [0])
        for k in range(1, n):
            st.apply(ref.X, [k], [0])
        return st.matrix(list(range(n)))
    if name == 'QubitOperator':
        return ref.pauli_matrix(gate.terms, n)
    if name == 'TimeEvolution':
        return ref.expm_h(ref.pauli_matrix(gate.hamiltonian.terms, n), gate.time)
    if name == 'UniformlyControlledRy' or name == 'UniformlyControlledRz':
        k = n - 1
        P = ref.Y if name.endswith('y') else ref.Z
        M = np.zeros((2 ** n, 2 ** n), dtype=complex)
        # registers are (choice, target): choice in the low bits
        for c in range(2 ** k):
            r = ref.rot(P, gate.angles[c])
            for a in (0, 1):
                for b in (0, 1):
                    M[(a << k) | c, (b << k) | c] = r[a, b]
        return M
    if name == 'FlipBits':
        M = np.eye(1)
        for b in gate.bits_to_flip[:n] + [0] * (n - len(gate.bits_to_flip)):
            M = np.kron(ref.X if b else ref.I2, M)
        return M
    raise Unknown(name)


def cvals_of(cmd):
    """Required values of cmd.control_qubits, as a list of ints."""
    s = cmd.control_state
    return [int(c) for c in s]


def op_of(cmd, gate_matrix=matrix_of, idmap=None):
    """A projectq command as a reference op."""
    f = (lambda q: q) if idmap is None else idmap
    name = type(cmd.gate).__name__
    if name == 'AllocateQubitGate' or name == 'AllocateDirtyQubitGate':
        return ('alloc', f(cmd.qubits[0][0].id))
    if name == 'DeallocateQubitGate':
        return ('dealloc', f(cmd.qubits[0][0].id))
    t = [f(q.id) for r in cmd.qubits for q in r]
    if name == 'MeasureGate':
        assert len(t) == 1, 'multi-qubit measure'
        return ('meas', t[0])
    if name == 'FlushGate':
        return None
    c = [f(q.id) for q in cmd.control_qubits]
    from projectq.ops import BasicMathGate

    if isinstance(cmd.gate, BasicMathGate) and name not in _MATH_AS_MATRIX:
        from . import refmath

        return ('f', refmath.function_of(cmd.gate, [len(r) for r in cmd.qubits]), [[f(q.id) for q in r] for r in cmd.qubits], c, cvals_of(cmd))
    return ('u', gate_matrix(cmd.gate, len(t)), t, c, cvals_of(cmd))


_MATH_AS_MATRIX = {'SwapGate'}


def stream_of(cmds, **kw):
    out = []
    for c in cmds:
        n = type(c.gate).__name__
        if n == 'MeasureGate':
            f = kw.get('idmap') or (lambda q: q)
            out += [('meas', f(q.id)) for r in c.qubits for q in r]
            continue
        o = op_of(c, **kw)
        if o is not None:
            out.append(o)
    return out


def show(cmds):
    return '; '.join(str_cmd(c) for c in cmds)


def str_cmd(c):
    try:
        g = str(c.gate)
    except Exception:
        g = type(c.gate).__name__
    t = ','.join('(' + ','.join(str(q.id) for q in r) + ')' for r in c.qubits)
    s = f'{g}{t}'
    if len(c.control_qubits):
        s = f'C{[q.id for q in c.control_qubits]}={c.control_state} ' + s
    if c.tags:
        s += f' tags={[type(x).__name__ for x in c.tags]}'
    return s


# ---------- comparing a program with what the backend received
def logical_tag(cmd):
    ids = [t.logical_qubit_id for t in cmd.tags if type(t).__name__ == 'LogicalQubitIDTag']
    assert len(ids) < 2, 'two logical-id tags on one command'
    return ids[0] if ids else None


def lives(cmds, mapping, gate_matrix=matrix_of):
    """Backend commands -> reference stream in which every life of a backend id is a token ('b', n).
    Returns stream, {logical id: first token}, {backend id: live token}.
    Mappers that move qubits tag the allocations with the logical id; the static ones have one fixed map."""
    cur, first, out, n = {}, {}, [], 0
    mapped = mapping is not None
    static = mapped and not any(logical_tag(c) is not None for c in cmds if type(c.gate).__name__ == 'AllocateQubitGate')
    inverse = {v: k for k, v in mapping.items()} if static else None

    def logical(c):
        i = c.qubits[0][0].id
        return i if not mapped else inverse[i] if static else logical_tag(c)
    for c in cmds:
        g = type(c.gate).__name__
        if g == 'FlushGate':
            continue
        if g in ('AllocateQubitGate', 'AllocateDirtyQubitGate'):
            i = c.qubits[0][0].id
            if i in cur:
                raise ref.StreamError(f'{i} allocated twice')
            cur[i] = ('b', n)
            n += 1
            lg = logical(c)
            if lg is not None:
                first.setdefault(lg, cur[i])
            out.append(('alloc', cur[i]))
            continue
        for r in c.all_qubits:
            for q in r:
                if q.id not in cur:
                    raise ref.StreamError(f'{str_cmd(c)} uses {q.id}, which is not allocated')
        if g == 'DeallocateQubitGate':
            i = c.qubits[0][0].id
            out.append(('dealloc', cur[i], logical(c)))
            del cur[i]
            continue
        if g == 'MeasureGate':
            lg = logical_tag(c)
            for r in c.qubits:
                for q in r:
                    if mapped and lg is None:
                        raise ref.StreamError('measurement of a mapped qubit without its logical id')
                    out.append(('meas', cur[q.id], lg if mapped else q.id))
            continue
        out += stream_of([c], gate_matrix=gate_matrix, idmap=lambda i: cur[i])
    return out, first, cur


def compiled_result(cmds, ids, mapping=None, zero=(), gate_matrix=matrix_of):
    """Operation of the backend commands on the logical qubits ids (inputs: those ever allocated, outputs: those still live).
    mapping: logical -> backend id at the end (None: they are equal). zero: names of qubits that must be |0> when released;
    released qubits that belong to no logical id in ids must be |0> too."""
    st, first, cur = lives(cmds, mapping, gate_matrix)
    inp = [first[i] for i in ids if i in first]
    outs = []
    freed = {o[2] for o in st if o[0] == 'dealloc'}
    for i in ids:
        if i in first and i not in freed:
            p = i if mapping is None else mapping[i]
            if p not in cur:
                raise ref.StreamError(f'qubit {i} is not live at the backend')
            outs.append(cur[p])
    if len(set(outs)) != len(outs):
        raise ref.StreamError('two qubits share a backend id')
    rest = [t for t in cur.values() if t not in outs]
    st += [('dealloc', t, ('left', t)) for t in rest]
    names = {o[2] for o in st if o[0] == 'dealloc'}
    z = {x for x in names if x not in ids} | set(zero)
    return ref.run_stream(st, inputs=inp, outputs=outs, dealloc_zero=z)


def source_result(cmds, ids, zero=(), gate_matrix=matrix_of):
    return compiled_result(cmds, ids, None, zero, gate_matrix)
