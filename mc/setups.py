"""The shipped compiler setups, with stand-ins for the device lists, and what each setup promises about emitted commands."""
IBM5 = [(0, 1), (1, 0), (1, 2), (1, 3), (1, 4), (2, 1), (2, 3), (2, 4), (3, 1), (3, 4), (4, 3)]
IBM5DIR = [(0, 1), (0, 2), (1, 2), (3, 2), (3, 4), (4, 2)]
MELB = ([(i, i + 1) for i in range(7)] + [(i + 1, i) for i in range(7)] + [(i, 15 - i) for i in range(8)] + [(i, i + 1) for i in range(8, 15)])

IONQ_DEVS = {'ionq_simulator': {'nq': 29, 'target': 'simulator'}, 'ionq_qpu': {'nq': 3, 'target': 'qpu'}}
IBM_DEVS = {'ibmq_burlington': {'coupling_map': IBM5, 'version': '0.0.0', 'nq': 5},
            'ibmq_directed': {'coupling_map': IBM5DIR, 'version': '0.0.0', 'nq': 5},
            'ibmq_16_melbourne': {'coupling_map': MELB, 'version': '0.0.0', 'nq': 16},
            'ibmq_qasm_simulator': {'coupling_map': IBM5, 'version': '0.0.0', 'nq': 32},
            'ibmq_unknown': {'coupling_map': IBM5, 'version': '0.0.0', 'nq': 7}}
AQT_DEVS = {'aqt_simulator': {'coupling_map': [], 'version': '0.0.0', 'nq': 11}, 'aqt_other': {'coupling_map': [], 'version': '0', 'nq': 4}}
AWS_DEVS = {k: {'nq': 34, 'coupling_map': {}, 'version': 'x', 'location': 'us', 'deviceArn': 'arn', 'deviceParameters': {}, 'deviceModelParameters': {}} for k in ('SV1', 'Aspen-8', 'IonQ Device', 'Other')}


class _FakeIonQ:
    def __init__(self, *a, **k):
        pass

    def authenticate(self, *a, **k):
        pass

    def show_devices(self):
        return IONQ_DEVS


def patch():
    """Replace the calls that would ask a service for its devices."""
    from projectq.setups import aqt, awsbraket, ibm, ionq

    ibm.show_devices = lambda *a, **k: IBM_DEVS
    aqt.show_devices = lambda *a, **k: AQT_DEVS
    awsbraket.show_devices = lambda *a, **k: AWS_DEVS
    ionq.IonQ = _FakeIonQ


def names():
    return list(_table())


_T = None


def _table():
    global _T
    if _T is None:
        _T = _build()
    return _T


def qubits(cmd):
    return [q.id for r in cmd.qubits for q in r]


def controls(cmd):
    return [q.id for q in cmd.control_qubits]


def _build():
    from projectq import ops as O
    from projectq import setups as S
    from projectq.backends import AQTBackend, AWSBraketBackend, ClassicalSimulator, IBMBackend, IonQBackend, Simulator, UnitarySimulator
    from projectq.libs import math as M
    from projectq.setups import aqt, awsbraket, default, grid, ibm, ionq, linear, restrictedgateset, trapped_ion_decomposer

    patch()

    def gates(one, two, other=(), edges=None, directed=False):
        """one/two: 'any' or predicates on (gate, number of controls)."""
        def spec(cmd):
            g, nc, n = cmd.gate, len(controls(cmd)), len(qubits(cmd)) + len(controls(cmd))
            if isinstance(g, O.ClassicalInstructionGate):
                return None
            if '0' in str(cmd.control_state):
                return 'negative control'
            if any(o(g, nc) for o in other):
                return None
            if n == 1:
                return None if one == 'any' or any(o(g, nc) for o in one) else 'one-qubit gate not allowed'
            if n == 2:
                if not (two == 'any' or any(o(g, nc) for o in two)):
                    return 'two-qubit gate not allowed'
                if edges is not None:
                    a, b = (controls(cmd) + qubits(cmd))
                    if (a, b) not in edges and (directed or (b, a) not in edges):
                        return f'({a},{b}) not connected'
                return None
            return f'{n}-qubit gate not allowed'
        return spec

    def cls(*cs):
        return [lambda g, nc, c=c: nc == 0 and type(g) is c for c in cs]

    def inst(*gs):
        return [lambda g, nc, x=x: nc == 0 and g == x for x in gs]

    def ctl(*gs):
        return [lambda g, nc, x=x: nc == 1 and g == x for x in gs]

    def lin(n, cyc=False):
        e = {(i, i + 1) for i in range(n - 1)}
        return e | {(n - 1, 0)} if cyc else e

    def grd(r, c):
        return {(i * c + j, i * c + j + 1) for i in range(r) for j in range(c - 1)} | {(i * c + j, (i + 1) * c + j) for i in range(r - 1) for j in range(c)}

    cnot, swap = ctl(O.X), inst(O.Swap)
    bar = [lambda g, nc: type(g).__name__ == 'BarrierGate']
    T = {}

    def add(name, fn, spec, backend=None, nq=99, math=True):
        T[name] = dict(make=fn, spec=spec, backend=backend, nq=nq, math=math)

    add('default', default.get_engine_list, lambda c: None, lambda: Simulator(rnd_seed=1))
    add('default-unitary', default.get_engine_list, lambda c: None, lambda: UnitarySimulator(), math=False)
    R = restrictedgateset.get_engine_list
    add('rgs-default', R, gates('any', cnot))
    add('rgs-rzh', lambda: R(one_qubit_gates=(O.Rz, O.H), two_qubit_gates=(O.CNOT,)), gates(cls(O.Rz) + inst(O.H), cnot))
    add('rgs-rzry', lambda: R(one_qubit_gates=(O.Rz, O.Ry), two_qubit_gates=(O.CNOT,)), gates(cls(O.Rz, O.Ry), cnot))
    add('rgs-rzrx', lambda: R(one_qubit_gates=(O.Rz, O.Rx), two_qubit_gates=(O.CNOT,)), gates(cls(O.Rz, O.Rx), cnot))
    add('rgs-cz', lambda: R(one_qubit_gates=(O.Rz, O.Ry), two_qubit_gates=(O.CZ,)), gates(cls(O.Rz, O.Ry), ctl(O.Z)))
    add('rgs-rxx', lambda: R(one_qubit_gates=(O.Rx, O.Ry), two_qubit_gates=(O.Rxx,)), gates(cls(O.Rx, O.Ry), cls(O.Rxx)))
    add('rgs-swap', lambda: R(one_qubit_gates=(O.Rz, O.H, O.Ry), two_qubit_gates=(O.CNOT, O.Swap)), gates(cls(O.Rz, O.Ry) + inst(O.H), cnot + swap))
    add('rgs-toffoli', lambda: R(one_qubit_gates=(O.Rz, O.Ry), two_qubit_gates=(O.CNOT,), other_gates=(O.Toffoli,)),
        gates(cls(O.Rz, O.Ry), cnot, [lambda g, nc: nc == 2 and g == O.X]))
    add('rgs-math', lambda: R(one_qubit_gates=(O.Rz, O.Ry), two_qubit_gates=(O.CNOT,), other_gates=(M.AddConstant,)),
        gates(cls(O.Rz, O.Ry), cnot, [lambda g, nc: type(g) is M.AddConstant]))
    add('rgs-any', lambda: R(one_qubit_gates='any', two_qubit_gates='any'), gates('any', 'any'))
    add('trapped_ion', trapped_ion_decomposer.get_engine_list, gates(cls(O.Rx, O.Ry), cls(O.Rxx)))
    for n, cyc in ((4, False), (4, True), (5, False)):
        add(f'linear-{n}{"c" if cyc else ""}', lambda n=n, cyc=cyc: linear.get_engine_list(num_qubits=n, cyclic=cyc), gates('any', cnot + swap, edges=lin(n, cyc)), nq=n)
    add('linear-4r', lambda: linear.get_engine_list(num_qubits=4, one_qubit_gates=(O.Rz, O.Ry), two_qubit_gates=(O.CNOT,)), gates(cls(O.Rz, O.Ry), cnot, edges=lin(4)), nq=4)
    add('linear-4any', lambda: linear.get_engine_list(num_qubits=4, one_qubit_gates=(O.Rz, O.Ry), two_qubit_gates='any'), gates(cls(O.Rz, O.Ry), 'any', edges=lin(4)), nq=4)
    add('grid-22', lambda: grid.get_engine_list(num_rows=2, num_columns=2), gates('any', cnot + swap, edges=grd(2, 2)), nq=4)
    add('grid-23r', lambda: grid.get_engine_list(num_rows=2, num_columns=3, one_qubit_gates=(O.Rz, O.Ry), two_qubit_gates=(O.CNOT,)), gates(cls(O.Rz, O.Ry), cnot, edges=grd(2, 3)), nq=6)
    rot = cls(O.Rx, O.Ry, O.Rz) + inst(O.H)
    add('ibm-5', lambda: ibm.get_engine_list(device='ibmq_burlington'), gates(rot, cnot, bar, edges=set(IBM5), directed=True), lambda: IBMBackend(), nq=5)
    add('ibm-5dir', lambda: ibm.get_engine_list(device='ibmq_directed'), gates(rot, cnot, bar, edges=set(IBM5DIR), directed=True), lambda: IBMBackend(), nq=5)
    add('ibm-16', lambda: ibm.get_engine_list(device='ibmq_16_melbourne'), gates(rot, cnot, bar, edges=set(MELB), directed=True), lambda: IBMBackend(), nq=16)
    add('ibm-sim', lambda: ibm.get_engine_list(device='ibmq_qasm_simulator'), gates(rot, cnot, bar), lambda: IBMBackend(), nq=32)
    add('aqt', lambda: aqt.get_engine_list(device='aqt_simulator'), gates(cls(O.Rx, O.Ry), cls(O.Rxx), bar), lambda: AQTBackend(), nq=11)
    ion1 = inst(O.X, O.Y, O.Z, O.H, O.S, O.Sdag, O.T, O.Tdag, O.SqrtX) + cls(O.Rx, O.Ry, O.Rz)
    add('ionq', lambda: ionq.get_engine_list(device='ionq_simulator'), gates(ion1, swap + cls(O.Rxx, O.Ryy, O.Rzz), bar), lambda: IonQBackend(), nq=29)
    add('ionq-qpu', lambda: ionq.get_engine_list(device='ionq_qpu'), gates(ion1, swap + cls(O.Rxx, O.Ryy, O.Rzz), bar), lambda: IonQBackend(), nq=3)
    aws1 = cls(O.Rx, O.Ry, O.Rz) + inst(O.H, O.S, O.Sdag, O.T, O.Tdag, O.X, O.Y, O.Z)
    add('aws-sv1', lambda: awsbraket.get_engine_list(credentials={}, device='SV1'), gates(aws1 + cls(O.R) + inst(O.SqrtX), cnot + swap, bar), lambda: AWSBraketBackend(), nq=34)
    add('aws-aspen', lambda: awsbraket.get_engine_list(credentials={}, device='Aspen-8'), gates(aws1 + cls(O.R), cnot + swap, bar), lambda: AWSBraketBackend(use_hardware=True, device='Aspen-8'), nq=34)
    add('aws-ionq', lambda: awsbraket.get_engine_list(credentials={}, device='IonQ Device'), gates(aws1 + inst(O.SqrtX), cnot + swap, bar), lambda: AWSBraketBackend(use_hardware=True, device='IonQ Device'), nq=34)
    return T


def availability(name):
    """What the target's backend accepts, as its own is_available says (True where the setup fixes no backend)."""
    t = _table()[name]
    if t['backend'] is None:
        return lambda c: True
    b = t['backend']()
    b.is_last_engine = True
    return b.is_available


def compile(name, steps, n, measure=False, alloc='reg', gate_matrix=None):
    """Run a program (functions of (engine, qubits)) through the real setup into a recorder.
    Returns dict: outcome 'ok' or the exception's name, cmds (received), src (entered), same, why, available."""
    from projectq import MainEngine

    from . import pq, ref

    t = _table()[name]
    av = availability(name)
    refused_by_backend = []

    def available(cmd):
        return av(cmd)

    tap, out = pq.Recorder(), pq.Recorder(available=available)
    chain = t['make']()
    eng = MainEngine(out, [tap] + chain)
    res = dict(outcome='ok', cmds=out.cmds, src=tap.cmds, same=None, why=None, available=av, mapping=None)
    q = list(eng.allocate_qureg(n)) if alloc == 'reg' else [eng.allocate_qubit()[0] for _ in range(n)]
    try:
        for s in steps:
            s(eng, q)
        eng.flush()
    except Exception as e:  # noqa
        res['outcome'] = type(e).__name__
        res['error'] = str(e)[:300]
        sink = pq.Recorder()
        sink.is_last_engine, sink.measure = True, None
        eng.next_engine = sink
        return res
    m = eng.mapper.current_mapping if eng.mapper is not None else None
    res['mapping'] = m
    gm = gate_matrix or pq.matrix_of
    ids = range(n)
    try:
        want = pq.source_result(tap.cmds, ids, gate_matrix=gm)
    except ref.StreamError as e:
        raise AssertionError(f'bad source program: {e}')
    try:
        got = pq.compiled_result(out.cmds, ids, m, gate_matrix=gm)
        res['same'] = ref.same_op(got, want, up_to_phase=True)
        if not res['same']:
            res['why'] = 'the compiled program is not the source program'
    except ref.StreamError as e:
        res['same'], res['why'] = False, str(e)
    q = None
    return res


_REF = None


def refused(check, name):
    """Programs which this setup is known not to compile (with an error); any other program must compile."""
    global _REF
    if _REF is None:
        import json
        import os

        _REF = json.load(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'refused.json')))
    return _REF.get(check, {}).get(name, ())
