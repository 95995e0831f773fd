"""C06: what reaches the backend of a shipped setup is in its gate set and connectivity, and is the source program."""
import itertools
import math

from mc import pq, ref, setups

ID = 'C06'
RULE = ('programs (sequences of letters up to a depth) x shipped setups, compiled by the real engine lists into a recorder that answers is_available like the setup\'s backend; plus '
        'CNOTs between all pairs of a full device and malformed setup arguments. Non-trivial: the program compiled and at least one gate reached the backend')
ASSUMPTIONS = ['device lists are stand-ins for the answers of the services', 'the list of programs that the shipped setups refuse (mc/refused.json) is part of the specification']
CHUNK = 1


# ---------- letters
def letters():
    from projectq import ops as O
    from projectq.libs import math as M
    from projectq.libs.math import AddConstant, AddQuantum, SubConstant, SubtractQuantum
    from projectq.meta import Compute, Control, Dagger, Loop, Uncompute

    L = {}
    one = {'X': O.X, 'Y': O.Y, 'Z': O.Z, 'H': O.H, 'S': O.S, 'Sdag': O.Sdag, 'T': O.T, 'Tdag': O.Tdag, 'SqrtX': O.SqrtX, 'Rx': O.Rx(.3), 'Ry': O.Ry(.4), 'Rz': O.Rz(.5),
           'R': O.R(.6), 'Ph': O.Ph(.7), 'RxPi': O.Rx(math.pi), 'Rz2Pi': O.Rz(2 * math.pi), 'Rz-': O.Rz(-.5), 'SqrtXdag': O.get_inverse(O.SqrtX), 'Matrix': None}
    m = O.MatrixGate(ref.rot(ref.Z, .3) @ ref.rot(ref.Y, .7) @ ref.rot(ref.Z, 1.1) * 1j)
    one['Matrix'] = m

    def put(name, f):
        L[name] = f

    def gate(g, t, c=(), st=None):
        def f(e, q):
            regs = tuple(q[i] for i in t) if len(t) > 1 else q[t[0]]
            if c:
                with Control(e, [q[i] for i in c], '1' * len(c) if st is None else st):
                    g | regs
            else:
                g | regs
        return f

    for n, g in one.items():
        for t in (0, 1, 2):
            put(f'{n}{t}', gate(g, [t]))
        for c, t in ((0, 1), (1, 0), (2, 0), (1, 2), (0, 2), (2, 1)):
            put(f'C{n}{c}{t}', gate(g, [t], [c]))
        put(f'C0{n}12', gate(g, [2], [1], '0'))
        put(f'CC{n}021', gate(g, [1], [0, 2]))
        put(f'CC{n}210', gate(g, [0], [2, 1]))
        put(f'C01{n}120', gate(g, [0], [1, 2], '01'))
    for n, g in {'Swap': O.Swap, 'SqrtSwap': O.SqrtSwap, 'Rxx': O.Rxx(.3), 'Ryy': O.Ryy(.3), 'Rzz': O.Rzz(.3)}.items():
        for t in ((0, 1), (2, 0), (1, 2)):
            put(f'{n}{t[0]}{t[1]}', gate(g, t))
        put(f'C{n}120', gate(g, [2, 0], [1]))
    put('SqrtSwapdag', gate(O.get_inverse(O.SqrtSwap), [0, 1]))

    def reg(g, *regs, c=(), st=None):
        def f(e, q):
            r = tuple([q[i] for i in x] for x in regs)
            r = r if len(r) > 1 else r[0]
            if c:
                with Control(e, [q[i] for i in c], '1' * len(c) if st is None else st):
                    g | r
            else:
                g | r
        return f

    put('QFT', reg(O.QFT, [0, 1, 2]))
    put('QFTr', reg(O.QFT, [2, 0]))
    put('CQFT', reg(O.QFT, [0, 2], c=[1]))
    put('QFTdag', reg(O.get_inverse(O.QFT), [2, 1, 0]))
    put('AllH', reg(O.All(O.H), [0, 1, 2]))
    put('Tensor', reg(O.Tensor(O.Rx(.3)), [2, 1]))
    put('Entangle', reg(O.Entangle, [1, 0, 2]))
    put('Barrier', reg(O.Barrier, [0, 1, 2]))
    put('FlipBits', reg(O.FlipBits([0, 1, 1]), [0, 1, 2]))
    put('QOp', reg(O.QubitOperator('X0 Y2', 1j), [0, 1, 2]))
    put('CQOp', reg(O.QubitOperator('X0 Z1', -1.), [2, 1], c=[0]))
    put('TE1', reg(O.TimeEvolution(.3, O.QubitOperator('X0 Y1')), [2, 0]))
    put('TE2', reg(O.TimeEvolution(-.4, O.QubitOperator('Z0 Z2') + O.QubitOperator('Z1', .5)), [0, 1, 2]))
    put('CTE', reg(O.TimeEvolution(.3, O.QubitOperator('Z0 X1')), [0, 2], c=[1]))
    put('UCRy', reg(O.UniformlyControlledRy([.1, .2, .3, .5]), [0, 2], [1]))
    put('UCRz', reg(O.UniformlyControlledRz([.1, .7]), [2], [1]))
    put('UCRzi', reg(O.get_inverse(O.UniformlyControlledRz([.1, .7])), [0], [2]))
    put('Add', reg(AddConstant(3), [0, 1, 2]))
    put('Add5', reg(AddConstant(5), [2, 1, 0]))
    put('Sub', reg(SubConstant(1), [0, 1, 2]))
    put('CAdd', reg(AddConstant(1), [0, 2], c=[1]))
    put('AddQ', reg(AddQuantum, [0], [1]))
    put('AddQc', reg(AddQuantum, [0], [1], [2]))
    put('AddQi', reg(O.get_inverse(AddQuantum), [2], [1]))
    put('SubQ', reg(SubtractQuantum, [2], [0]))
    put('CAddQ', reg(AddQuantum, [0], [1], c=[2]))
    put('Comp', reg(M.ComparatorQuantum, [1], [2], [0]))
    for t in (0, 1, 2):
        put(f'M{t}', gate(O.Measure, [t]))
    put('MAll', reg(O.All(O.Measure), [2, 0, 1]))

    def delete(i):
        def f(e, q):
            O.T | q[i]  # a qubit nobody touched may vanish together with its allocation
            q[i] = None
        return f

    def renew(i):
        def f(e, q):
            q[i] = None
            q[i] = e.allocate_qubit()[0]
        return f

    for i in (0, 1, 2):
        put(f'del{i}', delete(i))
    put('flush', lambda e, q: e.flush())

    def anc(e, q):
        with Compute(e):
            a = e.allocate_qubit()
            O.CNOT | (q[0], a[0])
            O.Ry(.3) | q[1]
        O.CZ | (a[0], q[2])
        Uncompute(e)

    def loop(e, q):
        with Loop(e, 3):
            O.Rx(.3) | q[1]
            O.CNOT | (q[1], q[2])

    def dag(e, q):
        with Dagger(e):
            O.T | q[0]
            O.CNOT | (q[0], q[1])
            O.Rx(.2) | q[1]

    def comp(e, q):
        with Control(e, q[0]):
            with Compute(e):
                O.H | q[1]
                O.CNOT | (q[1], q[2])
            O.Rz(.3) | q[2]
            Uncompute(e)

    put('anc', anc)
    put('loop', loop)
    put('dag', dag)
    put('comp', comp)
    return L


D2 = ['H1', 'X0', 'T1', 'Rz1', 'Rx2', 'Ry1', 'Ph0', 'CX01', 'CX20', 'CZ12', 'CRz02', 'C0X12', 'CH12', 'CPh21', 'CS10', 'Swap01', 'Swap20', 'QFT', 'CCX021', 'M1', 'del1', 'Barrier', 'Rxx01', 'Rzz12', 'flush', 'Add']
D2T = ['CRx01', 'CRy20', 'CR12', 'Matrix1', 'CMatrix12', 'CSwap120', 'TE2', 'UCRy', 'AddQc', 'anc', 'comp', 'Z2', 'Y1', 'CY02', 'SqrtX0', 'CSqrtX12', 'QFTdag', 'M0', 'del2', 'CTE']
D3 = ['H1', 'CX01', 'CX21', 'Rz1', 'Ry0', 'Swap20', 'M1']
D4 = ['H0', 'CX01', 'CX20', 'Rz1', 'M1']


def programs(tier):
    names = list(letters())
    out = [(x,) for x in names]
    d2 = D2 if tier == 'quick' else D2 + D2T
    out += list(itertools.product(d2, repeat=2))
    out += list(itertools.product(D3 if tier == 'quick' else D3 + ['C0X12', 'T0', 'del1'], repeat=3))
    if tier != 'quick':
        out += list(itertools.product(D4, repeat=4))
    dead = {}
    res = []
    for p in out:
        k = [i for i, x in enumerate(p) if x.startswith('del')]
        if k and any(uses(x, p[k[0]][3]) for x in p[k[0] + 1:]):
            continue
        res.append(p)
    return res


def uses(letter, d):
    """does the letter mention qubit d (letters without digits use all)"""
    t = letter[3:] if letter.startswith('C01') else letter[2:] if letter.startswith('C0') else letter
    dg = [c for c in t if c.isdigit()]
    return letter not in ('flush',) and (not dg or d in dg or letter in ('CTE', 'TE2', 'TE1'))


FULL = {'ibm-16': 16, 'ibm-5': 5, 'ibm-5dir': 5, 'linear-4': 4, 'linear-4c': 4, 'linear-5': 5, 'linear-4r': 4, 'linear-4any': 4, 'grid-22': 4, 'grid-23r': 6, 'aqt': 5, 'ionq': 5, 'ionq-qpu': 3, 'ibm-sim': 5}


def cases(tier):
    P = programs(tier)
    out = [['args', 0], ['args', 1]]
    for n in setups.names():
        for i in range(0, len(P), 24):
            out.append(['prog', n, [list(p) for p in P[i:i + 24]]])
    for n, k in FULL.items():
        pairs = [(i, j) for i in range(k) for j in range(k) if i != j]
        for i in range(0, len(pairs), 6):
            out.append(['full', n, pairs[i:i + 6]])
    return out


_S = {}


def run(case, ctx):
    return globals()['run_' + case[0]](case, ctx)


def one(name, prog, ctx, collect=None):
    L = _S.get('L') or _S.setdefault('L', letters())
    if name.startswith('ibm-5') and 'flush' in prog[:-1]:
        return  # each flush ends a circuit for the 5-qubit mapper: it maps the next one anew
    r = setups.compile(name, [L[x] for x in prog], 3)
    sig = f'{name}: {" ".join(prog)}'
    if collect is not None:
        if r['outcome'] != 'ok':
            collect.append(' '.join(prog))
        return
    ctx.trace()
    ctx.tr(len(r['cmds']))
    ctx.state(pq.show(r['cmds']))
    ctx.outcome(f'{r["outcome"]}')
    spec = setups._table()[name]['spec']
    for c in r['cmds']:
        why = spec(c)
        if why:
            return ctx.fail(sig, f'{why}: {pq.str_cmd(c)} reached the backend')
        if type(c.gate).__name__ != 'FlushGate' and not r['available'](c):
            return ctx.fail(sig, f'{pq.str_cmd(c)} reached the backend, which declares it unavailable')
    if r['outcome'] != 'ok':
        if not any(x in refused(name) for x in prog) and ' '.join(prog) not in refused(name):
            return ctx.fail(sig, f'refused: {r["outcome"]}: {r.get("error")}')
        return
    if len(r['cmds']) > 4:
        ctx.key(sig)
    if not r['same']:
        return ctx.fail(sig, f'{r["why"]}\nsource {pq.show(r["src"])}\ngot {pq.show(r["cmds"])}')


def refused(name):
    return set(setups.refused('C06', name))


def collect(name):
    got = []
    for p in programs('thorough'):
        if any(x in got for x in p):
            continue
        one(name, p, None, got)
    return got


def run_prog(case, ctx):
    for p in case[2]:
        if one(case[1], p, ctx) is False:
            return


def run_full(case, ctx):
    """all locations of the device in use; one generic product state"""
    from projectq import MainEngine
    from projectq import ops as O

    name, n = case[1], FULL[case[1]]
    t = setups._table()[name]
    for i, j in case[2]:
        out = pq.Recorder(available=setups.availability(name))
        eng = MainEngine(out, t['make']())
        q = list(eng.allocate_qureg(n))
        src = [('alloc', k) for k in range(n)]
        for k in range(n):
            O.Ry(.2 + .11 * k) | q[k]
            src.append(('u', ref.rot(ref.Y, .2 + .11 * k), [k], [], []))
        for c, x in ((i, j), (j, (i + j) % n if (i + j) % n not in (i, j) else i)):
            O.CNOT | (q[c], q[x])
            src.append(('u', ref.X, [x], [c], [1]))
        O.Ry(.3) | q[j]
        src.append(('u', ref.rot(ref.Y, .3), [j], [], []))
        eng.flush()
        ctx.trace()
        ctx.tr(len(out.cmds))
        sig = f'full {name} {i} {j}'
        ctx.key(sig)
        for c in out.cmds:
            why = t['spec'](c)
            if why:
                return ctx.fail(sig, f'{why}: {pq.str_cmd(c)} reached the backend')
        m = eng.mapper.current_mapping if eng.mapper is not None else {k: k for k in range(n)}
        try:
            st, first, cur = pq.lives(out.cmds, m)
            got = ref.run_stream(st, inputs=[], outputs=[cur[m[k]] for k in range(n)])
        except (ref.StreamError, KeyError) as e:
            return ctx.fail(sig, f'{e!r}')
        want = ref.run_stream(src, inputs=[], outputs=list(range(n)))
        if not ref.same_op(got, want, up_to_phase=True):
            return ctx.fail(sig, 'the compiled program is not the source program')
        q = None


def run_args(case, ctx):
    """configurations that must be refused (0) and equal answers for equal configurations (1)"""
    from projectq import ops as O
    from projectq.setups import aqt, awsbraket, grid, ibm, ionq, linear, restrictedgateset
    from projectq.backends._exceptions import DeviceNotHandledError, DeviceOfflineError

    setups.patch()
    R, L, G = restrictedgateset.get_engine_list, (lambda **k: linear.get_engine_list(num_qubits=3, **k)), (lambda **k: grid.get_engine_list(num_rows=2, num_columns=2, **k))
    bad = []
    if case[1] == 0:
        for nm, f in (('restricted', R), ('linear', L), ('grid', G)):
            for w, a in (('a list', [O.CNOT]), ('one gate', O.CNOT), ('a string', 'all'), ('a class', O.Rxx)):
                bad.append((f'{nm} two_qubit_gates={w}', lambda f=f, a=a: f(two_qubit_gates=a), TypeError))
            for w, a in (('a list', [O.X]), ('one gate', O.X), ('a string', 'all'), ('a class', O.Rx)):
                bad.append((f'{nm} one_qubit_gates={w}', lambda f=f, a=a: f(one_qubit_gates=a), TypeError))
        for w, a in (('a list', [O.X]), ('one gate', O.X)):
            bad.append((f'restricted other_gates={w}', lambda a=a: R(other_gates=a), TypeError))
        for k in ('one_qubit_gates', 'two_qubit_gates', 'other_gates'):
            for w, a in (('an int', (3,)), ('a string', ('X',)), ('None', (None,))):
                bad.append((f'restricted {k} with {w}', lambda k=k, a=a: R(**{k: a}), TypeError))
        for d in ('nothing', None):
            for nm, f in (('ibm', ibm), ('aqt', aqt), ('ionq', ionq)):
                bad.append((f'{nm} {d}', lambda f=f, d=d: f.get_engine_list(device=d), DeviceOfflineError))
            bad.append((f'aws {d}', lambda d=d: awsbraket.get_engine_list(credentials={}, device=d), DeviceOfflineError))
        bad.append(('ibm unknown', lambda: ibm.get_engine_list(device='ibmq_unknown'), DeviceNotHandledError))
        bad.append(('aqt unknown', lambda: aqt.get_engine_list(device='aqt_other'), DeviceNotHandledError))
        bad.append(('aws unknown', lambda: awsbraket.get_engine_list(credentials={}, device='Other'), DeviceNotHandledError))
        for nm, f, exc in bad:
            got = None
            try:
                f()
            except Exception as e:  # noqa
                got = e
            ctx.trace()
            ctx.tr()
            if not isinstance(got, exc):
                ctx.fail(f'args {nm}', f'expected {exc.__name__}, got {got!r}')
        return
    # the same arguments give the same kinds of engines, and no engine is shared between two lists
    for n in setups.names():
        a, b = setups._table()[n]['make'](), setups._table()[n]['make']()
        ctx.trace()
        if [type(x) for x in a] != [type(x) for x in b]:
            ctx.fail(f'args {n}', 'two calls give different engine lists')
        if {id(x) for x in a} & {id(x) for x in b}:
            ctx.fail(f'args {n}', 'engines are shared between two calls')
