"""C02: block programs (control / dagger / compute-uncompute / loop), enumerated as syntax trees, against their denotation."""
import itertools

import numpy as np

from mc import pq, ref

ID = 'C02'
RULE = ('every block program of the bounded grammar (bodies, wrappers, nesting depth of the tier), on a backend with and without loop-tag support; '
        'non-trivial: the program has a block nested in a block or a helper qubit; states: distinct emitted command lists; transitions: emitted commands')
ASSUMPTIONS = ['the commands recorded at the backend are interpreted with textbook matrices']
CHUNK = 16

ATOMS = ['T', 'H', 'CX', 'Rz', 'C0S']
A_, B_, C_, D_ = 0, 1, 2, 3  # system qubits a, b and control qubits c, d
CTLS = {'c1': ([C_], '1'), 'c0': ([C_], '0'), 'd1': ([D_], '1'), 'd0': ([D_], '0'), 'cd': ([C_, D_], '10'), 'dc': ([D_, C_], '10')}
HELP = ['anc', 'cua', 'cul', 'ccua', 'cumix', 'anc2', 'cul2']


# ---------- enumeration
def uses(p):
    """control qubits used in a program (list of nodes)"""
    s = set()
    for n in p:
        if n[0] == 'ctl':
            s |= set(CTLS[n[1]][0])
        for x in n[1:]:
            if isinstance(x, list):
                s |= uses(x)
    return s


def wraps(p, full=True):
    """all single blocks around body p"""
    u = uses(p)
    out = []
    for k, (qs, _) in CTLS.items():
        if not (set(qs) & u) and (full or k in ('c0', 'd1')):
            out.append(['ctl', k, p])
    out.append(['dag', p])
    for n in ((0, 1, 2, 3) if full else (0, 2)):
        out.append(['loop', n, p])
    t, h = [['T']], [['H'], ['CX']]
    out.append(['cu', p, t])
    out.append(['cu', h, p])
    out.append(['ccu', p, t, [['dag', p]]])
    out.append(['ccu', h, p, [['H']]])
    if full:
        out.append(['ccu', h, t, p])
        out.append(['cu', p, p])
        out.append(['cu', p, []])
    return out


def programs(tier):
    q = tier == 'quick'
    atoms = [[a] for a in ATOMS]
    b1 = [[]] + [[a] for a in atoms] + [list(x) for x in itertools.product(atoms, repeat=2)]
    helpers = [[h] for h in HELP]
    L1 = [w for b in b1 for w in wraps(b)] + [w for h in helpers for w in wraps([h])] + \
         [w for h in helpers for a in (['H'], ['CX']) for w in wraps([a, h]) + wraps([h, a])]
    yield from ([x] for x in atoms + helpers)
    yield from ([x] for x in L1)
    yield from ([x, y] for x in helpers for y in helpers)
    core = [w for b in ([['H'], ['CX']], [['Rz']], [['anc']], [['cua']], [['cul'], ['H']]) for w in wraps(b, False)] + [['ctl', 'cd', [['H'], ['T']]], ['loop', 3, [['H'], ['T']]], ['cu', [['H']], [['ctl', 'c0', [['Rz']]]]]]
    yield from ([x, y] for x in core for y in core if True)
    L2 = [w for x in core for b in ([x], [['H'], x], [x, ['T']]) for w in wraps(b)]
    yield from ([x] for x in L2)
    L2b = [w for x in core for y in core for w in wraps([x, y], False)]
    yield from ([x] for x in L2b)
    core2 = [w for x in core for w in wraps([x], False)]
    if True:
        L1c = [x for x in L1 if x[0] not in ('cu', 'ccu') or len(x[1]) < 2]
        yield from ([w] for x in L1c for w in wraps([['CX'], x]))
    L3 = [w for x in core2 for w in wraps([x], False)]
    yield from ([x] for x in L3)
    L3b = [w for x in core2[:: 3 if q else 1] for w in wraps([['H'], x, ['CX']], True)]
    yield from ([x] for x in L3b)
    if not q:
        yield from ([w] for x in L3 for w in wraps([x], False))
        yield from ([w] for x in L2b for w in wraps([x], False))
        yield from ([x, y] for x in L1[::7] for y in L1[::5])


def cases(tier):
    out = []
    for p in programs(tier):
        for tag in (False, True):
            if tag and not has_loop(p):
                continue
            out.append(['prog', p, tag])
    out += [['misuse', k, w] for k in sorted(MISUSE) for w in ('plain', 'ctl', 'dag', 'cu', 'loop')]
    return out


def has_loop(p):
    return any(n[0] == 'loop' or any(has_loop(x) for x in n[1:] if isinstance(x, list)) for n in p)


# ---------- denotation: operators on (a, b, c, d)
def op(M, t, c=(), v=None):
    st = ref.State.inputs([0, 1, 2, 3])
    st.apply(M, t, c, v)
    return st.matrix([0, 1, 2, 3])


DEN = {'T': op(ref.T, [A_]), 'H': op(ref.H, [B_]), 'CX': op(ref.X, [B_], [A_]), 'Rz': op(ref.rot(ref.Z, .3), [B_]), 'C0S': op(ref.S, [A_], [B_], [0])}
_crz = op(ref.rot(ref.Z, .7), [B_], [A_])
_cry = op(ref.rot(ref.Y, .7), [B_], [A_])
DEN['anc'] = _crz
DEN['anc2'] = _crz @ _crz
DEN['cua'] = _cry
DEN['ccua'] = _cry
DEN['cul'] = _crz.conj().T @ DEN['H'] @ _crz
DEN['cul2'] = (_crz @ _crz).conj().T @ DEN['H'] @ (_crz @ _crz)
DEN['cumix'] = _crz.conj().T @ _cry @ _crz


def meaning_with_controls(p, ctl=()):
    """Denotation where a compute section is not conditional on outer controls (they only differ for custom uncompute,
    which need not invert the computation): the documented semantics of control around compute/action/uncompute."""
    M = np.eye(16, dtype=complex)
    for n in p:
        k = n[0]
        if k in DEN:
            X = cond(DEN[k], ctl)
        elif k == 'ctl':
            qs, st = CTLS[n[1]]
            X = meaning_with_controls(n[2], ctl + tuple(zip(qs, st)))
        elif k == 'dag':
            X = meaning_with_controls(n[1], ctl).conj().T
        elif k == 'loop':
            X = np.linalg.matrix_power(meaning_with_controls(n[2], ctl), n[1])
        elif k == 'cu':
            U = meaning_with_controls(n[1], ())
            X = U.conj().T @ meaning_with_controls(n[2], ctl) @ U
        elif k == 'ccu':
            X = meaning_with_controls(n[3], ()) @ meaning_with_controls(n[2], ctl) @ meaning_with_controls(n[1], ())
        M = X @ M
    return M


def cond(U, ctl):
    on = np.array([all((i >> q & 1) == int(s) for q, s in ctl) for i in range(16)])
    M = np.eye(16, dtype=complex)
    M[np.ix_(on, on)] = U[np.ix_(on, on)]
    return M


# expected numbers: [commands controlled on c, on d, allocations]
def counts(p, ctl=frozenset()):
    t = np.zeros(3, dtype=int)
    for n in p:
        k = n[0]
        w = np.array([C_ in ctl, D_ in ctl, 0], dtype=int)
        if k in ATOMS:
            t += w
        elif k == 'anc':
            t += 3 * w + [0, 0, 1]
        elif k == 'anc2':
            t += 6 * w + [0, 0, 2]
        elif k in ('cua', 'ccua'):
            t += w + [0, 0, 1]
        elif k == 'cul':
            t += w + [0, 0, 2]
        elif k == 'cul2':
            t += w + [0, 0, 4]
        elif k == 'cumix':
            t += w + [0, 0, 3]
        elif k == 'ctl':
            t += counts(n[2], ctl | set(CTLS[n[1]][0]))
        elif k == 'dag':
            t += counts(n[1], ctl)
        elif k == 'loop':
            t += n[1] * counts(n[2], ctl)
        elif k == 'cu':
            t += 2 * counts(n[1]) + counts(n[2], ctl)
        elif k == 'ccu':
            t += counts(n[1]) + counts(n[2], ctl) + counts(n[3])
    return t


# ---------- running on the real code
def build(eng, q, p, log):
    from projectq import ops as O
    from projectq.meta import Compute, Control, CustomUncompute, Dagger, Loop, Uncompute

    def block(what, fn):
        nxt, n = eng.next_engine, eng.n_engines
        fn()
        if eng.next_engine is not nxt or eng.n_engines != n:
            log.append(f'engine chain not restored after {what}')

    def anc():
        h = eng.allocate_qubit()
        O.CNOT | (q[A_], h)
        with Control(eng, h):
            O.Rz(.7) | q[B_]
        O.CNOT | (q[A_], h)
        del h[0]

    for nd in p:
        k = nd[0]
        if k == 'T':
            O.T | q[A_]
        elif k == 'H':
            O.H | q[B_]
        elif k == 'CX':
            O.CNOT | (q[A_], q[B_])
        elif k == 'Rz':
            O.Rz(.3) | q[B_]
        elif k == 'C0S':
            def f():
                with Control(eng, q[B_], '0'):
                    O.S | q[A_]
            block('Control', f)
        elif k == 'anc':
            anc()
        elif k == 'anc2':
            h1 = eng.allocate_qubit()
            h2 = eng.allocate_qubit()
            for h in (h1, h2):
                O.CNOT | (q[A_], h)
            for h in (h1, h2):
                with Control(eng, h):
                    O.Rz(.7) | q[B_]
            for h in (h2, h1):
                O.CNOT | (q[A_], h)
            h = None
            del h1[0]
            del h2[0]
        elif k in ('cua', 'ccua', 'cumix'):
            def f():
                with Compute(eng):
                    if k == 'cumix':
                        anc()
                    h = eng.allocate_qubit()
                    O.CNOT | (q[A_], h)
                with Control(eng, h):
                    O.Ry(.7) | q[B_]
                if k == 'ccua':
                    with CustomUncompute(eng):
                        O.CNOT | (q[A_], h)
                        del h[0]
                else:
                    Uncompute(eng)
                    if h[0].id != -1:
                        log.append('helper qubit released by Uncompute is still usable')
            block(k, f)
        elif k in ('cul', 'cul2'):
            def f():
                with Compute(eng):
                    anc()
                    if k == 'cul2':
                        anc()
                O.H | q[B_]
                Uncompute(eng)
            block(k, f)
        elif k == 'ctl':
            qs, st = CTLS[nd[1]]

            def f(nd=nd, qs=qs, st=st):
                with Control(eng, [q[i] for i in qs], st):
                    build(eng, q, nd[2], log)
            block('Control', f)
        elif k == 'dag':
            def f(nd=nd):
                with Dagger(eng):
                    build(eng, q, nd[1], log)
            block('Dagger', f)
        elif k == 'loop':
            def f(nd=nd):
                with Loop(eng, nd[1]):
                    build(eng, q, nd[2], log)
            block('Loop', f)
        elif k == 'cu':
            def f(nd=nd):
                with Compute(eng):
                    build(eng, q, nd[1], log)
                build(eng, q, nd[2], log)
                Uncompute(eng)
            block('Compute/Uncompute', f)
        elif k == 'ccu':
            def f(nd=nd):
                with Compute(eng):
                    build(eng, q, nd[1], log)
                build(eng, q, nd[2], log)
                with CustomUncompute(eng):
                    build(eng, q, nd[3], log)
            block('Compute/CustomUncompute', f)
        else:
            raise AssertionError(k)


def loop_tags(c):
    return [t for t in c.tags if type(t).__name__ == 'LoopTag']


def expand(items):
    """items: [(cmd, [loop tags outermost last])] -> list of cmds with every loop unrolled."""
    out, i = [], 0
    while i < len(items):
        c, tags = items[i]
        if not tags:
            out.append(c)
            i += 1
            continue
        t = tags[-1]
        j = i
        body = []
        while j < len(items) and items[j][1] and items[j][1][-1] == t:
            body.append((items[j][0], items[j][1][:-1]))
            j += 1
        out += expand(body) * t.num
        i = j
    return out


def renumber(cmds):
    """One fresh id per life of a helper qubit (loop bodies repeat ids); returns reference stream and helper ids."""
    m, n, st, helpers = {0: 0, 1: 1, 2: 2, 3: 3}, 100, [], set()
    for c in cmds:
        if type(c.gate).__name__ == 'AllocateQubitGate':
            i = c.qubits[0][0].id
            if i > 3:
                if i in m:
                    raise ref.StreamError(f'qubit {i} allocated twice')
                m[i] = n
                helpers.add(n)
                n += 1
        for r in c.all_qubits:
            for x in r:
                if x.id not in m:
                    raise ref.StreamError(f'qubit {x.id} used while not allocated')
        st += pq.stream_of([c], idmap=lambda i: m[i])
        if type(c.gate).__name__ == 'DeallocateQubitGate':
            m.pop(c.qubits[0][0].id, None)
    return st, helpers


def run(case, ctx):
    if case[0] == 'misuse':
        return misuse(case, ctx)
    from projectq import MainEngine
    from projectq.meta import LoopTag

    _, prog, tag = case
    out = pq.Recorder()
    chain = []
    if tag:
        out.is_meta_tag_handler = lambda t: t is LoopTag
    eng = MainEngine(out, chain)
    q = list(eng.allocate_qureg(4))
    out.cmds.clear()
    log = []
    build(eng, q, prog, log)
    cmds = [c for c in out.cmds if type(c.gate).__name__ != 'FlushGate']
    ctx.tr(len(cmds))
    ctx.trace()
    strs = pq.show(cmds)
    ctx.state(strs)
    if len(str(prog)) > 40:
        ctx.key(str(prog))
    sig = f'{"tagged " if tag else ""}{flat(prog)}'
    for m in log:
        return ctx.fail(sig, m + '\n' + strs)
    if set(x.id for x in eng.active_qubits) != {0, 1, 2, 3}:
        return ctx.fail(sig, f'live qubits after the program: {sorted(x.id for x in eng.active_qubits)}\n{strs}')
    if tag:
        lt = [(c, loop_tags(c)) for c in cmds]
        full = expand(lt)
    else:
        if any(loop_tags(c) for c in cmds):
            return ctx.fail(sig, f'loop tags sent to a backend that does not support them\n{strs}')
        full = cmds
    try:
        st, helpers = renumber(full)
        res = ref.run_stream([('alloc', i) for i in range(4)] + st, inputs=[0, 1, 2, 3], outputs=[0, 1, 2, 3], dealloc_zero=helpers)
    except ref.StreamError as e:
        return ctx.fail(sig, f'{e}\n{strs}')
    want = meaning_with_controls(prog)
    if set(res) != {()} or np.max(np.abs(res[()] - want)) > 1e-7:
        return ctx.fail(sig, f'wrong operation\n{strs}')
    names = [type(c.gate).__name__ for c in full]
    na, nd = names.count('AllocateQubitGate'), names.count('DeallocateQubitGate')
    got = np.array([sum(C_ in [x.id for x in c.control_qubits] for c in full), sum(D_ in [x.id for x in c.control_qubits] for c in full), na])
    exp = counts(prog)
    if na != nd or na != exp[2]:
        return ctx.fail(sig, f'{na} allocations and {nd} releases of helper qubits, expected {exp[2]}\n{strs}')
    if got[0] != exp[0] or got[1] != exp[1]:
        return ctx.fail(sig, f'{got[:2]} commands controlled on (c, d), expected {exp[:2]}\n{strs}')
    ids = [c.qubits[0][0].id for c in cmds if type(c.gate).__name__ == 'AllocateQubitGate']
    if len(set(ids)) != len(ids) and not tag:
        return ctx.fail(sig, f'helper qubit id reused: {ids}\n{strs}')
    ctx.outcome(len(full))


def flat(p):
    return ' '.join(n[0] + (str(n[1]) if len(n) > 1 and not isinstance(n[1], list) else '') + ''.join('(' + flat(x) + ')' for x in n[1:] if isinstance(x, list)) for n in p)


# ---------- misuse must be refused
def _m(fn):
    MISUSE[fn.__name__] = fn


MISUSE = {}


def _ops():
    from projectq import meta, ops

    return ops, meta


@_m
def uncompute_without_compute(eng, q):
    _ops()[1].Uncompute(eng)


@_m
def custom_uncompute_without_compute(eng, q):
    O, M = _ops()
    with M.CustomUncompute(eng):
        O.X | q[0]


@_m
def uncompute_twice(eng, q):
    O, M = _ops()
    with M.Compute(eng):
        O.H | q[0]
    M.Uncompute(eng)
    M.Uncompute(eng)


@_m
def custom_after_uncompute(eng, q):
    O, M = _ops()
    with M.Compute(eng):
        O.H | q[0]
    M.Uncompute(eng)
    with M.CustomUncompute(eng):
        O.H | q[0]


@_m
def uncompute_inside_control(eng, q):
    O, M = _ops()
    with M.Compute(eng):
        O.H | q[0]
    with M.Control(eng, q[1]):
        O.X | q[0]
        M.Uncompute(eng)


@_m
def dagger_leaks(eng, q):
    O, M = _ops()
    with M.Dagger(eng):
        q.append(eng.allocate_qubit()[0])
        O.X | q[-1]


@_m
def dagger_leaks_one_of_two(eng, q):
    O, M = _ops()
    with M.Dagger(eng):
        q.append(eng.allocate_qubit()[0])
        h = eng.allocate_qubit()
        del h[0]


@_m
def dagger_frees_outer(eng, q):
    O, M = _ops()
    with M.Dagger(eng):
        O.X | q[0]
        del q[1]


@_m
def dagger_swaps_lifetimes(eng, q):
    O, M = _ops()
    with M.Dagger(eng):
        q.append(eng.allocate_qubit()[0])
        del q[1]


@_m
def loop_leaks(eng, q):
    O, M = _ops()
    with M.Loop(eng, 2):
        q.append(eng.allocate_qubit()[0])


@_m
def loop_frees_outer(eng, q):
    O, M = _ops()
    with M.Loop(eng, 3):
        O.X | q[0]
        del q[1]


@_m
def loop_swaps_lifetimes(eng, q):
    O, M = _ops()
    with M.Loop(eng, 2):
        q.append(eng.allocate_qubit()[0])
        del q[1]


@_m
def compute_frees_outer(eng, q):
    O, M = _ops()
    with M.Compute(eng):
        O.X | q[0]
        del q[1]


@_m
def compute_frees_outer_but_allocates(eng, q):
    O, M = _ops()
    with M.Compute(eng):
        q.append(eng.allocate_qubit()[0])
        del q[1]


@_m
def custom_uncompute_leaks_computed(eng, q):
    O, M = _ops()
    with M.Compute(eng):
        q.append(eng.allocate_qubit()[0])
    with M.CustomUncompute(eng):
        O.X | q[0]


@_m
def custom_uncompute_leaks_own(eng, q):
    O, M = _ops()
    with M.Compute(eng):
        O.X | q[0]
    with M.CustomUncompute(eng):
        q.append(eng.allocate_qubit()[0])


@_m
def loop_negative(eng, q):
    _ops()[1].Loop(eng, -1)


@_m
def loop_float(eng, q):
    _ops()[1].Loop(eng, 2.0)


@_m
def loop_string(eng, q):
    _ops()[1].Loop(eng, '2')


@_m
def control_tuple(eng, q):
    O, M = _ops()
    with M.Control(eng, (q[0], q[1])):
        O.X | q[2]


def misuse(case, ctx):
    from projectq import MainEngine
    from projectq import ops as O
    from projectq.meta import Compute, Control, Dagger, Loop, Uncompute

    _, name, wrap = case
    eng = MainEngine(pq.Recorder(), [])
    q = list(eng.allocate_qureg(4))
    fn = MISUSE[name]
    ctx.trace()
    ctx.tr()
    ctx.key(case)
    raised = None
    try:
        if wrap == 'plain':
            fn(eng, q)
        elif wrap == 'ctl':
            with Control(eng, q[3]):
                fn(eng, q)
        elif wrap == 'dag':
            with Dagger(eng):
                O.T | q[2]
                fn(eng, q)
        elif wrap == 'cu':
            with Compute(eng):
                O.T | q[2]
            with Control(eng, q[3]):
                fn(eng, q)
            Uncompute(eng)
        elif wrap == 'loop':
            with Loop(eng, 2):
                fn(eng, q)
    except Exception as e:  # noqa
        raised = type(e).__name__
    ctx.outcome(raised)
    if raised is None:
        ctx.fail(f'misuse {name} in {wrap}', 'not rejected')
    sink = pq.Recorder()
    sink.is_last_engine, sink.measure = True, None
    eng.next_engine = sink  # the chain is beyond use
