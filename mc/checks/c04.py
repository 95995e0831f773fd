"""C04: qubit life cycles - every history of allocating, sharing, using, dropping and flushing, against a reference-counting model."""
import gc
import itertools

from mc import pq, ref

ID = 'C04'
RULE = ('every history over the action alphabet up to the tier depth x engine chain x way of ending; the model counts user references; '
        'non-trivial: a qubit is shared between two registers or dies before the end')
ASSUMPTIONS = ['CPython reference counting: a qubit dies when its last reference is dropped']
CHUNK = 4

# a alloc, r register of 2, d dirty, g gate on newest, c cnot oldest/newest, m measure oldest, s slice, k concatenate, x drop oldest holder, y drop newest,
# e delete element, z explicit deallocate twice, f flush, F flush with deallocation, p compute block with helper, l loop with helper, v dagger with helper,
# i read oldest, b command refused by the backend, o drop the middle holder
FULL = 'ardgcmskxyefFplvib'
CORE = 'argmskxyefF'
DEEPER = 'argskxyeF'
CHAINS = ['plain', 'dirty', 'opt', 'replacer', 'manual', 'linear', 'sim', 'classical']


def cases(tier):
    q = tier == 'quick'
    out = []
    for ch in CHAINS:
        d = {'plain': 4, 'dirty': 3, 'opt': 4 if not q else 3, 'replacer': 3, 'manual': 3, 'linear': 3, 'sim': 3, 'classical': 3}[ch]
        for pre in itertools.product(FULL, repeat=2):
            out.append([ch, 'FULL', ''.join(pre), d, 'F'])
    for ch in ('plain', 'opt', 'sim'):
        for pre in itertools.product(CORE, repeat=2):
            out.append([ch, 'CORE', ''.join(pre), (5 if ch == 'plain' else 4) if q else (6 if ch == 'plain' else 5), 'F'])
    for pre in itertools.product(DEEPER, repeat=2):
        out.append(['plain', 'DEEPER', ''.join(pre), 5 if q else 7, 'F'])
        out.append(['plain', 'DEEPER', ''.join(pre), 4 if q else 5, 'drop'])
        out.append(['opt', 'DEEPER', ''.join(pre), 4 if q else 5, 'drop'])
    out += [['two', k] for k in range(4)]
    for b in REFUSERS:
        for a in 'hkDEuf':
            out.append(['refuse', b, a, 5 if q else 7])
    return out


ALPH = {'FULL': FULL, 'CORE': CORE, 'DEEPER': DEEPER}


class Refused(Exception):
    pass


def make(ch):
    from projectq import MainEngine
    from projectq.backends import ClassicalSimulator, Simulator
    from projectq.cengines import AutoReplacer, DecompositionRuleSet, LinearMapper, LocalOptimizer, ManualMapper, TagRemover
    from projectq.meta import DirtyQubitTag
    from projectq.ops import Z

    rec = pq.Recorder(measure=1)
    base = rec.receive

    def receive(cl):
        for c in cl:
            if c.gate == Z and not c.control_qubits:
                raise Refused('not this one')
        base(cl)
    rec.receive = receive
    if ch == 'plain':
        return MainEngine(rec, []), rec
    if ch == 'dirty':
        rec.is_meta_tag_handler = lambda t: t is DirtyQubitTag
        return MainEngine(rec, []), rec
    if ch == 'opt':
        return MainEngine(rec, [LocalOptimizer(3)]), rec
    if ch == 'replacer':
        import projectq.setups.decompositions as D
        return MainEngine(rec, [TagRemover(), AutoReplacer(DecompositionRuleSet(modules=[D]))]), rec
    if ch == 'manual':
        return MainEngine(rec, [ManualMapper(lambda i: i + 7)]), rec
    if ch == 'linear':
        return MainEngine(rec, [LinearMapper(9, storage=6)]), rec
    mid = pq.Recorder()
    if ch == 'sim':
        return MainEngine(Simulator(gate_fusion=True), [mid]), mid
    return MainEngine(ClassicalSimulator(), [mid]), mid


def run(case, ctx):
    if case[0] == 'refuse':
        return run_refuse(case, ctx)
    if case[0] == 'two':
        return run_two(case, ctx)
    ch, al, pre, d, end = case[:5]
    al = ALPH[al]
    seqs = [case[5]] if len(case) > 5 else (pre + ''.join(s) for s in itertools.product(al, repeat=d - 2))
    for s in seqs:
        why = one(ch, s, end, ctx)
        if why:
            ctx.case = [*case[:5], s]
            ctx.fail(f'{ch} {s} {end}', why)
            if len(ctx.violations) > 4:
                return


def one(ch, seq, end, ctx):
    from projectq.cengines import NotYetMeasuredError
    from projectq.meta import Compute, Dagger, DirtyQubitTag, Loop, Uncompute
    from projectq.ops import CNOT, All, Measure, X, Z

    eng, rec = make(ch)
    H, M = [], []  # holders and their ids
    nid = 0
    live, dead, measured, dirty, expect = set(), [], set(), set(), []
    flushed_meas = set()
    immediate = ch in ('plain', 'dirty', 'replacer', 'manual', 'sim', 'classical')
    helper = 0
    shared = False

    def refs():
        return {i for h in M for i in h if i is not None}

    def settle():
        """qubits whose last reference went away"""
        r = refs()
        for i in sorted(live - r):
            live.discard(i)
            dead.append(i)
            expect.append(('D', i))

    def new(n, **kw):
        nonlocal nid
        h = eng.allocate_qureg(n) if n > 1 else eng.allocate_qubit(**kw)
        ids = list(range(nid, nid + n))
        got = [x.id for x in h]
        nid += n
        H.append(h)
        M.append(list(ids))
        for i in ids:
            live.add(i)
            expect.append(('A', i))
        return got == ids or f'ids {got}, expected {ids}'

    def check(full):
        act = sorted(x.id for x in eng.active_qubits)
        if act != sorted(live):
            return f'live qubits {act}, expected {sorted(live)}'
        for h, m in zip(H, M):
            got = [x.id for x in h]
            if got != [-1 if i is None else i for i in m]:
                return f'register holds {got}, expected {m}'
        if not immediate and not full:
            return None
        ev = []
        seen, gone = set(), set()
        for c in rec.cmds:
            g = type(c.gate).__name__
            ids = [x.id for r in c.all_qubits for x in r]
            if ch == 'manual':
                ids = [i - 7 for i in ids]
            if ch == 'linear':
                continue
            if g == 'AllocateQubitGate':
                if ids[0] in seen:
                    return f'qubit {ids[0]} allocated twice'
                seen.add(ids[0])
                ev.append(('A', ids[0]))
                if ch == 'dirty' and (ids[0] in dirty) != (DirtyQubitTag() in c.tags):
                    return f'dirty tag of {ids[0]} at allocation'
                if ch != 'dirty' and DirtyQubitTag() in c.tags:
                    return 'dirty tag although it is not supported'
            elif g == 'DeallocateQubitGate':
                if ids[0] not in seen or ids[0] in gone:
                    return f'qubit {ids[0]} released while not allocated'
                gone.add(ids[0])
                ev.append(('D', ids[0]))
                if ch == 'dirty' and (ids[0] in dirty) != (DirtyQubitTag() in c.tags):
                    return f'dirty tag of {ids[0]} at release'
            elif g != 'FlushGate':
                for i in ids:
                    if i not in seen or i in gone:
                        return f'qubit {i} used while not allocated'
                ev.append((g, tuple(ids)))
        if immediate:
            # order within one garbage round is free: compare as multisets between other events
            if canon(ev) != canon(expect):
                return f'backend saw {ev}, expected {expect}'
        elif full and ch == 'opt':
            want_d = {i for k, i in expect if k == 'D'}
            used = {i for e in expect if e[0] not in 'AD' for i in e[1]}
            vanish = {i for i in want_d if i not in seen and i not in gone}
            # an untouched (or idle, after cancelling) qubit may vanish altogether
            if gone != want_d - vanish:
                return f'released {sorted(gone)}, expected {sorted(want_d)}'
            if not (live <= seen):
                return f'{sorted(live - seen)} not allocated after a flush'
        elif full and ch == 'linear':
            lt = [(type(c.gate).__name__[0], pq.logical_tag(c)) for c in rec.cmds if type(c.gate).__name__[:3] in ('All', 'Dea') and pq.logical_tag(c) is not None]
            if sorted(lt) != sorted(e for e in expect if e[0] in 'AD'):
                return f'backend saw {lt}, expected {expect}'
        return None

    for k, a in enumerate(seq):
        ctx.tr()
        full = False
        flat = [(h, j) for h, m in enumerate(M) for j, i in enumerate(m) if i is not None]
        try:
            if a == 'a':
                r = new(1)
                if r is not True:
                    return r
            elif a == 'r':
                r = new(2)
                if r is not True:
                    return r
            elif a == 'd':
                if ch == 'dirty':
                    dirty.add(nid)
                r = new(1, dirty=True)
                if r is not True:
                    return r
            elif a == 'b':
                if not flat or ch not in ('plain', 'dirty'):
                    continue
                h, j = flat[0]
                try:
                    Z | H[h][j]
                    return 'a refused command raised nothing'
                except Refused:
                    pass
                gc.collect()  # the traceback is a cycle that refers to the qubits
            elif a == 'g':
                if flat:
                    h, j = flat[-1]
                    X | H[h][j]
                    expect.append(('XGate', (M[h][j],)))
            elif a == 'c':
                if flat and M[flat[0][0]][flat[0][1]] != M[flat[-1][0]][flat[-1][1]]:
                    (h, j), (h2, j2) = flat[0], flat[-1]
                    CNOT | (H[h][j], H[h2][j2])
                    expect.append(('XGate', (M[h][j], M[h2][j2])))
            elif a == 'm':
                if flat:
                    h, j = flat[0]
                    Measure | H[h][j]
                    expect.append(('MeasureGate', (M[h][j],)))
                    measured.add(M[h][j])
            elif a == 's':
                if H:
                    H.append(H[0][:1])
                    M.append(M[0][:1])
                    shared = True
            elif a == 'k':
                if H:
                    H.append(H[0] + H[-1])
                    M.append(M[0] + M[-1])
                    shared = True
            elif a == 'x':
                if H:
                    H.pop(0)
                    M.pop(0)
                    settle()
            elif a == 'y':
                if H:
                    H.pop()
                    M.pop()
                    settle()
            elif a == 'e':
                if H and len(H[0]):
                    del H[0][0]
                    del M[0][0]
                    settle()
            elif a == 'f':
                eng.flush()
                full = True
                flushed_meas |= measured
            elif a == 'F':
                eng.flush(deallocate_qubits=True)
                full = True
                flushed_meas |= measured
                for i in sorted(live):
                    dead.append(i)
                    expect.append(('D', i))
                live.clear()
                M[:] = [[None] * len(m) for m in M]
            elif a in 'plv':
                if flat and ch not in ('linear', 'classical', 'sim', 'replacer') or flat and a != 'p' and ch != 'classical' and ch != 'linear':
                    h, j = flat[0]
                    i = M[h][j]
                    if a == 'p':
                        with Compute(eng):
                            w = eng.allocate_qubit()
                            CNOT | (H[h][j], w)
                        X | H[h][j]
                        X | H[h][j]
                        wid = w[0].id
                        Uncompute(eng)
                        if w[0].id != -1:
                            return 'helper of a compute block is alive after uncompute'
                        seqs = [('A', wid), ('XGate', (i, wid)), ('XGate', (i,)), ('XGate', (i,)), ('XGate', (i, wid)), ('D', wid)]
                    elif a == 'v':
                        with Dagger(eng):
                            w = eng.allocate_qubit()
                            wid = w[0].id
                            CNOT | (H[h][j], w)
                            CNOT | (H[h][j], w)
                            del w[0]
                        seqs = [('A', wid), ('XGate', (i, wid)), ('XGate', (i, wid)), ('D', wid)]
                    else:
                        with Loop(eng, 2):
                            w = eng.allocate_qubit()
                            wid = w[0].id
                            CNOT | (H[h][j], w)
                            CNOT | (H[h][j], w)
                            del w[0]
                        one_ = lambda x: [('A', x), ('XGate', (i, x)), ('XGate', (i, x)), ('D', x)]
                        seqs = one_(wid) + one_(wid + 1)
                    w = None
                    if wid != nid:
                        return f'helper id {wid}, expected {nid}'
                    nid = wid + (2 if a == 'l' else 1)
                    expect += seqs
            elif a == 'i':
                if H and len(H[0]):
                    i = M[0][0]
                    have = i is not None and (i in measured if immediate and ch != 'linear' else i in flushed_meas)
                    if not have and not immediate and i in measured:
                        continue
                    try:
                        v = int(H[0][0])
                        if not have:
                            return f'a result {v} could be read though none exists'
                    except NotYetMeasuredError:
                        if have:
                            return 'the result of a measured qubit cannot be read'
        except RuntimeError as x:
            if ch == 'linear' and len(live) + helper > 9:
                return None
            return f'{type(x).__name__}: {x}'
        why = check(full)
        if why:
            return f'after {seq[:k + 1]}: {why}'
    ctx.trace()
    ctx.state((ch, canon(expect), sorted(live)))
    if shared or dead:
        ctx.key((ch, seq))
    ctx.outcome((len(live), len(dead)))
    log = rec.cmds
    n = nid
    if ch == 'sim':
        eng.flush()
        mp, psi = eng.backend.cheat()
        if sorted(mp) != sorted(live) or len(psi) != 2 ** len(live):
            return f'the simulator holds {sorted(mp)}, expected {sorted(live)}'
    elif ch == 'classical':
        for h, m in zip(H, M):
            for x, i in zip(h, m):
                if i is not None:
                    eng.backend.read_bit(x)
    if end == 'F':
        eng.flush(deallocate_qubits=True)
        for i in sorted(live):
            expect.append(('D', i))
        live.clear()
        M[:] = [[None] * len(m) for m in M]
        why = check(True)
        if why:
            return f'after the final flush: {why}'
        k = len(log)
        H = w = None
        if len(log) != k:
            return 'dropping dead qubits sent further commands'
    else:
        H = w = h = h2 = x = None
        eng = rec = None
        flat = check = new = None
        gc.collect()
    na = sorted(c.qubits[0][0].id for c in log if type(c.gate).__name__ == 'AllocateQubitGate')
    nd = sorted(c.qubits[0][0].id for c in log if type(c.gate).__name__ == 'DeallocateQubitGate')
    if na != nd:
        return f'at the end {na} were allocated and {nd} released'
    if ch in ('plain', 'dirty', 'sim', 'classical', 'replacer') and na != list(range(n)):
        return f'allocated {na}, expected 0..{n - 1}'
    return None


def canon(ev):
    """releases adjacent to each other in any order"""
    out, block = [], []
    for e in ev:
        if e[0] == 'D':
            block.append(e)
        else:
            out += sorted(block)
            block = []
            out.append(e)
    return out + sorted(block)


REFUSERS = ('sim', 'fuse', 'py', 'rec', 'dirtyrec')


def run_refuse(case, ctx):
    """Releases that the backend refuses (a qubit in superposition): the qubit stays what it was until a release succeeds."""
    from projectq import MainEngine
    from projectq.meta import DirtyQubitTag
    from projectq.ops import H

    from mc import sims

    b, first, depth = case[1:4]
    seqs = [case[4]] if len(case) > 4 else (first + ''.join(s) for s in itertools.product('hkDEuf', repeat=depth - 1))
    for seq in seqs:
        ctx.trace()
        ctx.key((b, seq))
        odd = set()
        if b.endswith('rec'):
            rec = pq.Recorder(measure=1)
            base = rec.receive

            def receive(cl, base=base, odd=odd):
                for c in cl:
                    i = c.qubits[0][0].id if c.qubits[0] else None
                    if type(c.gate).__name__ == 'DeallocateQubitGate' and i in odd:
                        raise RuntimeError('refused')
                    if type(c.gate).__name__ == 'HGate':
                        odd.symmetric_difference_update([i])
                base(cl)

            rec.receive = receive
            if b == 'dirtyrec':
                rec.is_meta_tag_handler = lambda t: t is DirtyQubitTag
            eng = MainEngine(rec, [])
        else:
            rec = None
            eng = sims.engine(sims.make('py' if b == 'py' else 'cpp', fusion=b == 'fuse'))
        qs = [eng.allocate_qubit(dirty=b == 'dirtyrec'), eng.allocate_qubit()]
        sup, alive = [0, 0], [1, 1]
        why = None
        for k, a in enumerate(seq):
            ctx.tr()
            try:
                if a in 'hk':
                    i = 'hk'.index(a)
                    if rec is not None and not alive[i]:
                        continue  # the recorder has no opinion
                    try:
                        H | qs[i]
                        sup[i] ^= 1
                        if not alive[i]:
                            why = 'a released qubit can be used'
                    except Exception as x:
                        if alive[i]:
                            why = f'a live qubit cannot be used: {type(x).__name__} {x}'
                elif a in 'DEu':
                    # u: the whole register of the first one, released by its finaliser's explicit call when it cannot be refused
                    i = 1 if a == 'E' else 0
                    if a == 'u' and (sup[0] or not alive[0]):
                        continue
                    try:
                        if a == 'u':
                            qs[0][0].__del__()
                        else:
                            eng.deallocate_qubit(qs[i][0])
                        if not alive[i]:
                            why = 'a released qubit is released again'
                        elif sup[i]:
                            why = 'a refused release raised nothing'
                        alive[i] = 0
                    except ValueError:
                        if alive[i]:
                            why = 'a live qubit counts as released'
                    except RuntimeError:
                        if not (alive[i] and sup[i]):
                            why = 'the release is refused without reason'
                else:
                    eng.flush()
            finally:
                gc.disable()
            if why is None:
                for i in range(2):
                    if (qs[i][0].id == i) != bool(alive[i]) or qs[i][0].id not in (i, -1):
                        why = f'qubit {i} (alive: {alive[i]}) has id {qs[i][0].id}'
                if a == 'u' and any(x is qs[0][0] for x in eng.active_qubits):
                    why = 'a deleted qubit is still listed as active'
                act = sorted(x.id for x in eng.active_qubits if x.id != -1)
                if act != [i for i in range(2) if alive[i]]:
                    why = f'live qubits {act}, expected {alive}'
                if rec is None and a == 'f':
                    have = sorted(eng.backend.cheat()[0])
                    if have != [i for i in range(2) if alive[i]]:
                        why = f'the simulator holds {have}, alive: {alive}'
                if rec is not None:
                    gone = [(c.qubits[0][0].id, DirtyQubitTag() in c.tags) for c in rec.cmds if type(c.gate).__name__ == 'DeallocateQubitGate']
                    if sorted(gone) != [(i, i == 0 and b == 'dirtyrec') for i in range(2) if not alive[i]]:
                        why = f'the backend saw the releases {gone}, alive: {alive}'
            if why:
                break
        ctx.state((b, tuple(sup), tuple(alive)))
        ctx.outcome((tuple(sup), tuple(alive)))
        sims.sink(eng)
        for q in qs:
            q[0].id = -1
        gc.enable()
        if why:
            ctx.case = [*case[:4], seq]
            ctx.fail(f'refused release {b} {seq}', f'after {seq[:k + 1]}: {why}')
            return


def run_two(case, ctx):
    """Deleted qubits and qubits of two engines."""
    from copy import copy, deepcopy

    from projectq import MainEngine
    from projectq.backends import ClassicalSimulator, Simulator
    from projectq.ops import CNOT, QFT, Measure, Swap, X

    k = case[1]
    ctx.trace()
    ctx.key(case)
    if k == 0:
        a, b = MainEngine(pq.Recorder(), []), MainEngine(pq.Recorder(), [])
        x, y = a.allocate_qubit(), b.allocate_qubit()
        if x[0] == y[0] or x[0] in b.active_qubits:
            ctx.fail('two engines', 'qubits of two engines are equal')
        for g in (Swap, QFT):
            try:
                g | ((x, y) if g == Swap else [x[0], y[0]])
                ctx.fail('two engines', 'a gate across two engines is accepted')
            except Exception:  # noqa
                pass
    elif k == 1:
        for B in (lambda: Simulator(), lambda: Simulator(gate_fusion=True), lambda: ClassicalSimulator()):
            for how in range(3):
                e = MainEngine(B(), [])
                q, r, s = e.allocate_qubit(), e.allocate_qubit(), e.allocate_qubit()
                keep = q[0]
                X | r
                if how == 0:
                    e.flush(deallocate_qubits=True)
                elif how == 1:
                    q[0].__del__()
                else:
                    q[0].__del__()
                    q[0].__del__()
                if keep.id != -1:
                    ctx.fail('deleted', 'a deleted qubit keeps its id')
                for f in (lambda: X | q, lambda: CNOT | (r, q), lambda: CNOT | (q, r), lambda: Measure | q):
                    ctx.tr()
                    try:
                        f()
                        e.flush()
                        ctx.fail(f'deleted {how}', 'a deleted qubit can be used in a gate')
                    except Exception:  # noqa
                        pass
                try:
                    e.deallocate_qubit(keep)
                    ctx.fail('deleted', 'a deleted qubit can be released again')
                except ValueError:
                    pass
                sink = pq.Recorder()
                sink.is_last_engine, sink.measure = True, None
                e.next_engine = sink
    elif k == 2:
        rec = pq.Recorder()
        e = MainEngine(rec, [])
        q = e.allocate_qureg(2)
        c, d = copy(q[0]), deepcopy(q[1])
        if c is not q[0] or d is not q[1]:
            ctx.fail('copy', 'copying a qubit makes a second one')
        del q
        if len(rec.cmds) != 2 or len(e.active_qubits) != 2:
            ctx.fail('copy', 'qubits with references left were released')
        del c
        del d
        if [type(x.gate).__name__ for x in rec.cmds[2:]] != ['DeallocateQubitGate'] * 2:
            ctx.fail('copy', 'qubits without references were not released')
    else:
        # a register and its elements agree; dropping the register while a slice lives
        rec = pq.Recorder(measure=1)
        e = MainEngine(rec, [])
        q = e.allocate_qureg(3)
        from projectq.ops import All
        from projectq.types import Qureg

        All(Measure) | q
        v = [int(x) for x in q]
        if v != [1, 1, 1]:
            ctx.fail('register', f'{v}')
        s = q[1:]
        del q
        if sorted(x.id for x in e.active_qubits) != [1, 2] or str(Qureg(s)) != 'Qureg[1-2]':
            ctx.fail('register', f'{Qureg(s)} {[x.id for x in e.active_qubits]}')
