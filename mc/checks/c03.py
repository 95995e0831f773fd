"""C03: control qubits and their required values, over every way of producing a command."""
import itertools
from copy import deepcopy

import numpy as np

from mc import pq, ref, setups

ID = 'C03'
RULE = ('(cmd) every construction of a command with up to 3 controls in any order and notation, followed by every sequence of command operations of the tier depth; '
        '(eq) every pair of a pool of commands; (nest) every nesting of control blocks x notation x gate x engine chain; (bad) malformed states; '
        '(setup) negatively controlled programs x shipped setups. Non-trivial: at least one control with value 0')
ASSUMPTIONS = ['which commands a target supports is taken from the setups\' documentation (mc/setups.py)']
CHUNK = 16
CASE_TIMEOUT = 120

IDS = [3, 1, 2]


def notations(bits):
    """every way to write the control values bits (tuple of 0/1 in the order of the qubits)"""
    out = ['s' + ''.join(map(str, bits)), 'i%d' % sum(b << k for k, b in enumerate(bits))]
    if bits and all(bits):
        out += ['aOne', 'default']
    if bits and not any(bits):
        out += ['aZero']
    return out


def state_of(note):
    from projectq.ops import CtrlAll

    if note == 'aOne':
        return CtrlAll.One
    if note == 'aZero':
        return CtrlAll.Zero
    return note[1:] if note[0] == 's' else int(note[1:])


def specs(nmax, ids=IDS):
    for n in range(nmax + 1):
        for qs in itertools.permutations(ids, n):
            for bits in itertools.product((1, 0), repeat=n):
                for note in notations(bits):
                    yield [list(qs), list(bits), note]


GATES = ['X', 'Rz', 'SW', 'H', 'S']
ADDS = [[[1], [0], 's0'], [[3, 2], [0, 1], 's01'], [[2, 3], [1, 0], 'i1'], [[2], [1], 'default'], [[1, 1], [0, 0], 's00'], [[1, 2, 3], [1, 0, 1], 's101'],
        [[3, 1], [0, 0], 'aZero'], [[2, 2], [0, 1], 's01'], [[5], [0], 'i0']]
OPS = ['copy', 'inv', 'merge', 'eng', 'tag', 'str'] + [['add', a] for a in ADDS] + [['set', v] for v in ('aZero', 's1', 's01', 's010', 'i0', 'i5', 'aOne')] + [['ctl', v] for v in ([], [2], [1, 3], [5, 1], [1, 2, 3])]


def cases(tier):
    q = tier == 'quick'
    out = []
    for s in specs(3):
        out.append(['cmd', s, 2 if q else 3])
    pool = len(eq_pool())
    out += [['eq', i] for i in range(pool)]
    out += [['bad', k] for k in range(len(BAD))]
    one = [s for s in specs(1, [1, 2])if s[0]]
    two = [s for s in specs(2, [1, 2]) if len(s[0]) == 2] + [s for s in specs(2, [3, 1]) if len(s[0]) == 2]
    three = [s for s in specs(3, [3, 1, 2]) if len(s[0]) == 3]
    mixed = one + two
    nests = [[s] for s in mixed + three] + [[a, b] for a in mixed for b in mixed]
    third = [s for s in one + two if s[2][0] in 'sa'][:: 3 if q else 1]
    nests += [[a, b, c] for a in one for b in two[::2] for c in third]
    for n in nests:
        out.append(['nest', n])
    progs = SETUP_PROGS
    for name in setups.names():
        out += [['setup', name, p] for p in sorted(progs)]
    return out


# ---------- model
def model_ctor(spec):
    """-> dict or None when contradictory"""
    d = {}
    for q, b in zip(spec[0], spec[1]):
        if d.setdefault(q, b) != b:
            return None
    return d


def mk_gate(name):
    from projectq import ops as O

    return {'X': O.X, 'Rz': O.Rz(.3), 'Rz2': O.Rz(.4), 'SW': O.Swap, 'H': O.H, 'S': O.S, 'Ry': O.Ry(.3)}[name]


class Tag1:
    def __eq__(self, o):
        return isinstance(o, Tag1)


class Tag2:
    def __eq__(self, o):
        return isinstance(o, Tag2)


_ENG = []


def eng():
    if not _ENG:
        from projectq import MainEngine

        for _ in range(2):
            e = MainEngine(pq.Recorder(), [])
            _ENG.append(e)
    return _ENG


def ref_q(i):
    from projectq.types import WeakQubitRef

    return WeakQubitRef(eng()[0], i)


def make(gate, targets, spec, tags=(), engine=0):
    from projectq.ops import Command

    qs, _, note = spec
    kw = {} if note == 'default' or not qs and note in ('aOne', 'aZero') else {'control_state': state_of(note)}
    return Command(eng()[engine], gate, tuple([ref_q(t)] for t in targets), [ref_q(i) for i in qs], tags, **kw)


def check(cmd, want, gate, targets, tags, engine, ctx, sig):
    got = {}
    qs, st = cmd.control_qubits, cmd.control_state
    if len(qs) != len(st):
        return ctx.fail(sig, f'{len(qs)} control qubits but control state {st!r}')
    for x, v in zip(qs, st):
        if x.id in got:
            return ctx.fail(sig, f'control qubit {x.id} twice')
        got[x.id] = int(v)
    if got != want:
        return ctx.fail(sig, f'controls {got}, expected {want}')
    if list(got) != sorted(got):
        return ctx.fail(sig, f'controls not in canonical order: {list(got)}')
    if sorted(x.id for r in cmd.qubits for x in r) != sorted(targets):
        return ctx.fail(sig, f'targets {[x.id for r in cmd.qubits for x in r]}, expected {targets}')
    if [type(t) for t in cmd.tags] != tags:
        return ctx.fail(sig, f'tags {cmd.tags}')
    if cmd.engine is not engine or any(x.engine is not engine for r in cmd.all_qubits for x in r):
        return ctx.fail(sig, 'command and qubits do not all belong to the engine')
    if any(x.id != y.id for x, y in zip([x for r in cmd.all_qubits for x in r], [x for x in cmd.control_qubits] + [x for r in cmd.qubits for x in r])):
        return ctx.fail(sig, 'all_qubits is not controls followed by targets')
    return True


def run(case, ctx):
    return globals()['run_' + case[0]](case, ctx)


def run_cmd(case, ctx):
    from projectq.ops import IncompatibleControlState, NotMergeable

    spec, depth = case[1], case[2]
    for gname, targets in (('Rz', [0]), ('SW', [4, 0]), ('X', [0])):
        g = mk_gate(gname)
        first = make(g, targets, spec)
        d0 = model_ctor(spec)
        if not check(first, d0, g, targets, [], eng()[0], ctx, f'ctor {spec}'):
            return
        base = spec if gname == 'Rz' else [spec[0], spec[1], spec[2]]
        seqs = itertools.chain(*(itertools.product(range(len(OPS)), repeat=k) for k in range(1, (depth if gname == 'Rz' else 1) + 1)))
        for seq in seqs:
            cmd = make(g, targets, base)
            d, e, tags, ang = dict(d0), 0, [], 1
            hist = []
            old = None
            for k in seq:
                op = OPS[k]
                hist.append(op)
                ctx.tr()
                sig = f'{gname} {spec} {hist}'
                if op == 'copy':
                    old = (cmd, dict(d), list(tags), e)
                    cmd = deepcopy(cmd)
                elif op == 'inv':
                    old = (cmd, dict(d), list(tags), e)
                    cmd = cmd.get_inverse()
                    ang = -ang
                elif op == 'merge':
                    try:
                        new = cmd.get_merged(deepcopy(cmd))
                    except NotMergeable:
                        if gname == 'Rz':
                            return ctx.fail(sig, 'equal rotations on equal qubits do not merge')
                        continue
                    if gname != 'Rz':
                        return ctx.fail(sig, f'{gname} merged')
                    cmd = new
                    ang *= 2
                elif op == 'eng':
                    e = 1 - e
                    cmd.engine = eng()[e]
                elif op == 'tag':
                    cmd.tags = cmd.tags + [Tag1()]
                    tags.append(Tag1)
                elif op == 'str':
                    if str(cmd).count('C') != len(d) + (1 if False else 0) and gname == 'Rz':
                        return ctx.fail(sig, f'{cmd} does not show {len(d)} controls')
                elif op[0] == 'add':
                    qs, bits, note = op[1]
                    want = dict(d)
                    clash = False
                    for x, b in zip(qs, bits):
                        if want.setdefault(x, b) != b:
                            clash = True
                    try:
                        if note == 'default':
                            cmd.add_control_qubits([ref_q(i) for i in qs])
                        else:
                            cmd.add_control_qubits([ref_q(i) for i in qs], state=state_of(note))
                        if clash:
                            return ctx.fail(sig, 'contradictory control values accepted')
                        d = want
                    except IncompatibleControlState:
                        if not clash:
                            return ctx.fail(sig, 'consistent control values rejected')
                        break
                    if e:
                        cmd.engine = eng()[e]
                elif op[0] == 'ctl':
                    same = len(op[1]) == len(d)
                    bits = [d[x] for x in sorted(d)] if same else [1] * len(op[1])
                    if op[1] != sorted(op[1]) and len(set(bits)) > 1:
                        continue  # which value belongs to which qubit is not documented
                    cmd.control_qubits = [ref_q(i) for i in op[1]]
                    d = dict(zip(op[1], bits))
                    if e:
                        cmd.engine = eng()[e]
                elif op[0] == 'set':
                    s = op[1]
                    ids = sorted(d)
                    try:
                        cmd.control_state = state_of(s)
                        ok = True
                    except ValueError:
                        ok = False
                    bits = None
                    if s == 'aZero':
                        bits = [0] * len(ids)
                    elif s == 'aOne':
                        bits = [1] * len(ids)
                    elif s[0] == 's':
                        bits = [int(c) for c in s[1:]] if len(s) - 1 == len(ids) else None
                    else:
                        v = int(s[1:])
                        bits = [v >> k & 1 for k in range(len(ids))] if v < 2 ** len(ids) else None
                    if not ids:
                        continue
                    if ok != (bits is not None):
                        return ctx.fail(sig, f'control state {s} for {len(ids)} controls: {"accepted" if ok else "rejected"}')
                    if ok:
                        d = dict(zip(ids, bits))
                if not check(cmd, d, g, targets, tags, eng()[e], ctx, sig):
                    return
                if old is not None and not check(old[0], old[1], g, targets, old[2], eng()[old[3]], ctx, sig + ' (the original)'):
                    return
            else:
                if gname == 'Rz' and abs((cmd.gate.angle - .3 * ang + 1e-9) % (4 * np.pi)) > 1e-6:
                    return ctx.fail(sig, f'angle {cmd.gate.angle}')
            ctx.trace()
            ctx.state((sorted(d.items()), tags, ang, gname))
            if 0 in d.values():
                ctx.key((spec, seq, gname))


# ---------- equality
def eq_pool():
    """(gate, targets, {id: value}, tags, engine, construction)"""
    pool = []
    ctl = [{}] + [dict(zip(qs, bits)) for n in (1, 2) for qs in itertools.combinations([1, 2, 3], n) for bits in itertools.product((0, 1), repeat=n)]
    for d in ctl:
        for g, t in (('X', [0]), ('Rz', [0]), ('Rz2', [0]), ('X', [5]), ('SW', [0, 5]), ('SW', [5, 0])):
            for route in ((0, 1, 2, 3) if d else (0,)):
                pool.append((g, t, sorted(d.items()), [], 0, route))
        pool.append(('X', [0], sorted(d.items()), ['t1'], 0, 0))
        pool.append(('X', [0], sorted(d.items()), ['t2'], 0, 0))
        pool.append(('X', [0], sorted(d.items()), ['t1', 't2'], 0, 0))
        pool.append(('X', [0], sorted(d.items()), ['t2', 't1'], 0, 0))
        pool.append(('X', [0], sorted(d.items()), [], 1, 0))
    return pool


def build_eq(x):
    g, t, d, tags, e, route = x
    tg = [Tag1() if a == 't1' else Tag2() for a in tags]
    if route == 0:
        c = make(mk_gate(g), t, [[q for q, _ in d], None, 's' + ''.join(str(v) for _, v in d)], tg)
    elif route == 1:
        c = make(mk_gate(g), t, [[q for q, _ in d][::-1], None, 's' + ''.join(str(v) for _, v in d[::-1])], tg)
    elif route == 2:
        c = make(mk_gate(g), t, [[], None, 's'], tg)
        for q, v in d[::-1]:
            c.add_control_qubits([ref_q(q)], state=str(v))
    else:
        c = make(mk_gate(g), t, [[q for q, _ in d], None, 's' + '1' * len(d)], tg)
        c.control_state = ''.join(str(v) for _, v in d)
        c = deepcopy(c).get_inverse().get_inverse()
    if e:
        c.engine = eng()[1]
    return c


_POOL = []


def run_eq(case, ctx):
    if not _POOL:
        for x in eq_pool():
            norm = (x[0], tuple(sorted(x[1])) if x[0] == 'SW' else tuple(x[1]), tuple(x[2]), tuple(x[3]), x[4])
            _POOL.append((norm, build_eq(x), x))
    a = _POOL[case[1]]
    for b in _POOL:
        want = a[0] == b[0]
        got = a[1] == b[1]
        ctx.tr()
        if bool(got) != want or bool(a[1] != b[1]) == want:
            return ctx.fail(f'eq {a[2]} {b[2]}', f'equal: {got}, expected {want}')
    ctx.trace()
    ctx.state(a[0])
    if any(v == 0 for _, v in a[2][2]):
        ctx.key(a[2])


# ---------- malformed states
BAD = [('i2', 1), ('i4', 2), ('i8', 3), ('i-1', 1), ('i-1', 2), ('i-2', 2), ('i-3', 3), ('s', 1), ('s0', 2), ('s000', 2), ('s2', 1), ('s1x', 2), ('s 1', 2),
       ('s-1', 2), ('s0b', 2), ('sNone', 4), ('f1.0', 1), ('none', 1), ('list', 2), ('tuplestate', 2), ('s1\n', 2), ('s01', 1)]


def run_bad(case, ctx):
    from projectq import MainEngine
    from projectq import ops as O
    from projectq.meta import Control

    note, n = BAD[case[1]]
    st = {'none': None, 'list': [0, 1], 'tuplestate': (0, 1), 'f1.0': 1.0}.get(note) if note[0] not in 'si' else state_of(note)
    e = MainEngine(pq.Recorder(), [])
    q = e.allocate_qureg(n + 1)

    def route_control():
        with Control(e, list(q[1:]), st):
            O.X | q[0]

    def route_ctor():
        O.Command(e, O.X, ([q[0]],), list(q[1:]), control_state=st)

    def route_add():
        c = O.X.generate_command(q[0])
        c.add_control_qubits(list(q[1:]), st)

    def route_set():
        c = O.Command(e, O.X, ([q[0]],), list(q[1:]))
        c.control_state = st

    for f in (route_control, route_ctor, route_add, route_set):
        ctx.tr()
        ctx.trace()
        try:
            f()
        except (ValueError, TypeError):
            ctx.key((note, n, f.__name__))
            continue
        ctx.fail(f'bad {note} {n} {f.__name__}', 'malformed control state accepted')
    # control qubits must be a list
    for bad in ((q[1],), q[1]):
        try:
            O.X.generate_command(q[0]).add_control_qubits(bad, '1')
            ctx.fail('bad container', f'{type(bad)} accepted as control qubits')
        except ValueError:
            pass


# ---------- nested blocks through engine chains
def chains():
    from projectq.backends import CommandPrinter, ResourceCounter
    from projectq.backends._circuits import CircuitDrawer
    from projectq.cengines import (AutoReplacer, DecompositionRuleSet, ForwarderEngine, GridMapper, IBM5QubitMapper, InstructionFilter, LinearMapper, LocalOptimizer,
                                   ManualMapper, SwapAndCNOTFlipper, TagRemover, CommandModifier)
    from projectq.meta import ComputeTag

    def ident(cmd):
        return cmd

    def printer():
        import io
        return CommandPrinter()

    big = len
    return {
        'plain': lambda: [], 'opt': lambda: [LocalOptimizer(4)], 'filters': lambda: [TagRemover(), InstructionFilter(lambda e, c: True), CommandModifier(ident)],
        'counter': lambda: [ResourceCounter()], 'drawer': lambda: [CircuitDrawer()], 'manual': lambda: [ManualMapper(lambda i: 4 - i), LocalOptimizer(3)],
        'replacer': lambda: [AutoReplacer(DecompositionRuleSet(modules=[])), LocalOptimizer(2)],
        'flip': lambda: [SwapAndCNOTFlipper({(0, 1), (2, 0), (0, 3), (3, 0)})],
        'linear': lambda: [LinearMapper(5, cyclic=False, storage=10)], 'grid': lambda: [GridMapper(num_rows=2, num_columns=3, storage=10)],
        'ibm5': lambda: [IBM5QubitMapper()],
    }


def run_nest(case, ctx):
    from projectq import MainEngine
    from projectq import ops as O
    from projectq.cengines import BasicMapperEngine
    from projectq.meta import Compute, Control, Dagger, Loop, Uncompute

    nest = case[1]
    want = {}
    clash = False
    for qs, bits, _ in nest:
        for x, b in zip(qs, bits):
            if want.setdefault(x, b) != b:
                clash = True
    if 0 in want.values():
        ctx.key(nest)
    bodies = ['X', 'SW', 'Rz', 'CT', 'meta']
    single = len(want) == 1
    cs = [c for c in chains() if c in ('plain', 'opt', 'filters', 'counter', 'drawer', 'manual', 'replacer') or single]
    if len(nest) > 1:
        cs = [c for c in cs if c in ('plain', 'opt', 'manual')]
    if len(nest) > 2:
        cs = ['plain']
    if clash:
        cs = ['plain']
    for ch in cs:
        for body in bodies:
            limited = ch in ('linear', 'grid', 'ibm5', 'flip')
            if limited and body not in ('X', 'Rz'):
                continue
            if ch == 'flip' and body != 'X':
                continue
            sig = f'nest {nest} {ch} {body}'
            out = pq.Recorder(measure=None)
            e = MainEngine(out, chains()[ch]())
            q = list(e.allocate_qureg(5))
            n0 = 0
            err = None

            def go(k):
                if k == len(nest):
                    if body == 'X':
                        O.X | q[0]
                    elif body == 'SW':
                        O.Swap | (q[4], q[0])
                    elif body == 'Rz':
                        O.Rz(.3) | q[0]
                        O.Rz(.4) | q[0]
                    elif body == 'CT':
                        O.C(O.X) | (q[4], q[0])
                    else:
                        with Dagger(e):
                            O.S | q[0]
                        with Compute(e):
                            O.H | q[0]
                        with Loop(e, 2):
                            O.Ry(.3) | q[4]
                        Uncompute(e)
                    return
                qs, bits, note = nest[k]
                ql = [q[i] for i in qs]
                with (Control(e, ql) if note == 'default' else Control(e, ql[0] if len(ql) == 1 and note[0] == 'i' else ql, state_of(note))):
                    go(k + 1)

            try:
                go(0)
                e.flush()
            except O.IncompatibleControlState:
                err = True
            ctx.tr()
            ctx.trace()
            if bool(err) != clash:
                ctx.fail(sig, f'contradictory: {clash}, rejected: {err}')
                return
            if clash:
                s = pq.Recorder()
                s.is_last_engine, s.measure = True, None
                e.next_engine = s
                continue
            # expected operation
            cq, cv = list(want), list(want.values())
            src = [('alloc', i) for i in range(5)]
            U = lambda M, t, c=True, extra=(): src.append(('u', M, t, list(extra) + (cq if c else []), [1] * len(extra) + (cv if c else [])))
            if body == 'X':
                U(ref.X, [0])
            elif body == 'SW':
                U(ref.SWAP, [4, 0])
            elif body == 'Rz':
                U(ref.rot(ref.Z, .7), [0])
            elif body == 'CT':
                U(ref.X, [0], extra=[4])
            else:
                U(ref.S.conj().T, [0])
                U(ref.H, [0], c=False)
                U(ref.rot(ref.Y, .6), [4])
                U(ref.H, [0], c=False)
            m = e.mapper.current_mapping if e.mapper is not None else None
            if ch == 'manual':
                m = {i: 4 - i for i in range(5)}
            elif m is None and ch in ('linear', 'grid', 'ibm5', 'manual'):
                return ctx.fail(sig, 'no mapping reported')
            strs = pq.show(out.cmds)
            try:
                got = pq.compiled_result(out.cmds, range(5), m)
            except ref.StreamError as x:
                return ctx.fail(sig, f'{x}\n{strs}')
            if not ref.same_op(got, ref.run_stream(src, inputs=range(5), outputs=range(5))):
                return ctx.fail(sig, f'controls were lost or altered\n{strs}')
            ctx.state(strs)
            if ch == 'counter':
                rc = e.next_engine
                for key, n in rc.gate_counts.items():
                    pass
            for c in out.cmds:
                if not isinstance(c.gate, O.ClassicalInstructionGate) and ch in ('plain', 'filters', 'counter', 'drawer', 'opt') and body in ('X', 'SW', 'Rz'):
                    g = dict(zip((x.id for x in c.control_qubits), pq.cvals_of(c)))
                    if g != want:
                        return ctx.fail(sig, f'controls {g}, expected {want}')
            q = None


# ---------- setups: negatively controlled programs
def _cx(state, ctrl, tgt, gate):
    def f(e, q):
        from projectq import ops as O
        from projectq.meta import Control

        g = {'X': O.X, 'Z': O.Z, 'Rz': O.Rz(.3), 'Ry': O.Ry(.4), 'H': O.H, 'Swap': O.Swap, 'S': O.S, 'Ph': O.Ph(.2), 'R': O.R(.5)}[gate]
        with Control(e, [q[i] for i in ctrl], state):
            g | (tuple(q[i] for i in tgt) if len(tgt) > 1 else q[tgt[0]])
    return f


SETUP_PROGS = {f'{g}-{s}': _cx(s, list(range(len(s))), t, g) for s in ('0', '00', '01', '10') for g, t in
               (('X', [2]), ('Z', [2]), ('Rz', [2]), ('Ry', [2]), ('H', [2]), ('S', [2]), ('R', [2]), ('Ph', [2]))}
SETUP_PROGS.update({'Swap-0': _cx('0', [0], [1, 2], 'Swap'), 'X-0r': _cx('0', [2], [0], 'X'), 'X-01r': _cx('01', [2, 0], [1], 'X')})


def run_setup(case, ctx):
    _, name, prog = case
    r = setups.compile(name, [SETUP_PROGS[prog]], 3)
    ctx.tr(len(r['cmds']))
    ctx.trace()
    ctx.key(case)
    ctx.outcome(r['outcome'] if r['outcome'] == 'ok' else 'refused')
    ctx.state(pq.show(r['cmds']))
    sig = f'setup {name} {prog}'
    for c in r['cmds']:
        why = setups._table()[name]['spec'](c)
        if why:
            return ctx.fail(sig, f'{why}: {pq.str_cmd(c)} reached the backend')
        if type(c.gate).__name__ != 'FlushGate' and not r['available'](c):
            return ctx.fail(sig, f'{pq.str_cmd(c)} reached the backend, which declares it unavailable')
    if r['outcome'] == 'ok' and not r['same']:
        return ctx.fail(sig, f'{r["why"]}\n{pq.show(r["cmds"])}')
    if r['outcome'] != 'ok' and prog not in setups.refused('C03', name):
        return ctx.fail(sig, f'refused: {r["outcome"]}')


