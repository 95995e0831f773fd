"""C07: qubit mappers keep the program and respect connectivity."""
import itertools

from mc import pq, sims

ID = 'C07'
RULE = ('all histories up to a depth over allocation, release, two-qubit gates on all pairs, one-qubit gates, swaps, measurement and flush, from 0..n live qubits, x devices (lines, rings, grids with '
        'relabelled sites, 5-qubit device, static maps, bounded allocator) x buffer sizes x user-given initial maps. Every location carries a token for the qubit state it holds (swaps move tokens); at '
        'every flush the projection of the emitted commands on every token equals that of the program (trace equivalence), every two-qubit command is on an edge, the reported map is where the tokens '
        'are. Plus all pairs of partial maps for swap routing, all command lists for the static mapping function, all directed graphs for the CNOT flipper. Non-trivial: a command was moved or a swap was emitted')
ASSUMPTIONS = ['the history alphabet identifies every gate by a distinct angle, so that a reordered or lost gate cannot go unnoticed']
CHUNK = 2


# ---------------------------------------------------------------- devices
def line(n):
    return {(i, i + 1) for i in range(n - 1)}


def ring(n):
    return line(n) | ({(0, n - 1)} if n > 1 else set())


def grid(r, c, ids=None):
    ids = ids or list(range(r * c))
    e = set()
    for i in range(r):
        for j in range(c):
            if j + 1 < c:
                e.add((ids[i * c + j], ids[i * c + j + 1]))
            if i + 1 < r:
                e.add((ids[i * c + j], ids[(i + 1) * c + j]))
    return e


IBM5 = {(0, 1), (1, 2), (1, 3), (1, 4), (2, 3), (2, 4), (3, 4)}


def device(name, storage):
    """-> mapper, set of sites (None: any), undirected edges (None: all), number of qubits (None: unbounded), moving?"""
    from projectq.cengines import GridMapper, IBM5QubitMapper, LinearMapper, ManualMapper

    kind, *a = name.split(':')
    if kind == 'line':
        n = int(a[0])
        return LinearMapper(n, False, storage), range(n), line(n), n, True
    if kind == 'ring':
        n = int(a[0])
        return LinearMapper(n, True, storage), range(n), ring(n), n, True
    if kind == 'grid':
        r, c = map(int, a[0].split('x'))
        if len(a) > 1 and a[1] == 'rel':
            ids = [(3 * i + 7) % 23 for i in range(r * c)]
            return GridMapper(r, c, dict(enumerate(ids)), storage), ids, grid(r, c, ids), r * c, True
        return GridMapper(r, c, storage=storage), range(r * c), grid(r, c), r * c, True
    if kind == 'ibm5':
        if a and a[0] == 'path':
            return IBM5QubitMapper(connections={(0, 1), (2, 1), (2, 3), (4, 3)}), range(5), line(5), 5, False
        return IBM5QubitMapper(), range(5), IBM5, 5, False
    if kind == 'manual':
        f = {'id': lambda i: i, 'rev': lambda i: 11 - i, 'mul': lambda i: 3 * i + 2}[a[0]]
        if a[0] == 'id':
            return ManualMapper(), None, None, None, False
        return ManualMapper(f), None, None, None, False
    if kind == 'bounded':
        from projectq.backends._ionq._ionq_mapper import BoundedQubitMapper

        n = int(a[0])
        return BoundedQubitMapper(n), range(n), None, n, True
    raise KeyError(name)


LETTERS = {
    'two': ['CX01', 'CX12', 'CX02', 'A', 'F', 'D0'],
    'mix': ['CX01', 'CX10', 'CX12', 'CX02', 'A', 'D0', 'D1', 'Dl', 'F', 'X0', 'Ml', 'S01', 'S0l', 'CXl0'],
    'four': ['CX01', 'CX12', 'CX23', 'CX02', 'CX13', 'CX03', 'D0', 'D2', 'A', 'F'],
    'pairs': ['CX01', 'CX02', 'CX03', 'CX04', 'CX12', 'CX13', 'CX14', 'CX23', 'CX24', 'CX34', 'F'],
    'six': ['CX05', 'CX14', 'CX23', 'CX02', 'CX35', 'CX15', 'CX04', 'D3', 'A', 'F'],
    'live': ['A', 'D0', 'D1', 'Dl', 'X0', 'CX01', 'Ml', 'F'],
    'ibm': ['CX01', 'CX12', 'CX20', 'CX13', 'CX34', 'CX04', 'nCX01', 'X0', 'Ml'],
}


def cases(tier):
    T = tier != 'quick'
    out = []

    def hist(dev, storages, live, alpha, depth, pre=1, maps=(None,)):
        for s in storages:
            for k in live:
                for m in maps:
                    for p in itertools.product(LETTERS[alpha], repeat=pre):
                        out.append(['hist', dev, s, k, alpha, list(p), depth - pre, m])
    S = (1, 2, 3, 5, 1000) if T else (1, 2, 1000)
    for dev in ('line:1', 'line:2', 'ring:2'):
        hist(dev, S, (0, int(dev[-1])), 'live', 5 if T else 4)
    for dev in ('line:3', 'ring:3', 'grid:1x3', 'grid:3x1'):
        main = dev in ('line:3', 'ring:3')
        hist(dev, S if T else (1, 1000), (0, 2, 3) if T else (2, 3) if main else (3,), 'mix', 4 if T else 3 if main else 2)
        hist(dev, S, (3,), 'two', 5 if T else 4 if main else 3)
    for dev in ('line:4', 'ring:4', 'grid:2x2', 'grid:2x2:rel'):
        hist(dev, S, (3, 4), 'four', 4 if T else 2)
        hist(dev, (1000,), (4,), 'four', 5 if T else 3, pre=2 if T else 1)
        hist(dev, (2, 1000), (2, 4) if T or dev != 'line:4' else (4,), 'mix', 3 if T else 2)
    for dev in ('line:5', 'ring:5', 'grid:2x3', 'grid:3x2', 'grid:2x3:rel'):
        hist(dev, (1, 1000) if not T else S, (5,), 'pairs', 4 if T else 3)
    for dev in ('grid:2x3', 'grid:3x2', 'line:6', 'ring:6', 'grid:3x2:rel'):
        hist(dev, (1, 3, 1000), (6,), 'six', 4 if T else 2)
        if not T:
            hist(dev, (1000,), (6,), 'six', 3)
    for dev, n in (('line:3', 3), ('ring:4', 4), ('grid:2x2', 4), ('grid:2x2:rel', 4), ('line:4', 4)):
        sites = list(device(dev, 1)[1])
        ms = [list(zip(range(n), p)) for p in itertools.permutations(sites)]
        ms += [list(zip(range(n - 1), p)) for p in itertools.permutations(sites, n - 1)] if T else []
        hist(dev, (2, 1000), (n,), 'two', 3, maps=ms)
    for dev in ('manual:id', 'manual:rev', 'manual:mul', 'bounded:3', 'bounded:4', 'bounded:1'):
        hist(dev, (0,), (0, 1, 3) if '1' not in dev else (0, 1), 'live', 5 if T else 4)
        if dev[-1] != '1':
            hist(dev, (0,), (3,), 'mix', 4 if T else 3)
    for dev in ('ibm5', 'ibm5:path'):
        hist(dev, (0,), (1, 2, 3, 5, 6) if T else (2, 5, 6), 'ibm', 4 if T else 3)
    # swap routing
    for r, c in ((1, 2), (1, 3), (1, 4), (2, 1), (3, 1), (2, 2), (2, 3), (3, 2)) + (((4, 1), (1, 5), (5, 1), (2, 4), (4, 2)) if T else ()):
        n = r * c
        for k in range(n + 1):
            if n > 6 and 2 < k < n:
                continue
            for dom in itertools.combinations(range(n), k):
                out.append(['route', r, c, list(dom)])
    # static mapping function
    for n in (2, 3, 4):
        for cyc in (False, True):
            for k in range(n + 1):
                pairs = list(itertools.combinations(range(n), 2)) + [('A',)] + [('D', i) for i in range(n)]
                for p in pairs:
                    out.append(['newmap', n, cyc, k, list(p), 3 if T or n < 4 else 2])
    for n in (2, 3):
        for g in itertools.product((0, 1, 2, 3), repeat=n * (n - 1) // 2):
            out.append(['flip', n, list(g)])
    return out


def run(case, ctx):
    globals()['run_' + case[0]](case, ctx)


# ---------------------------------------------------------------- histories
def run_hist(case, ctx):
    _, dev, storage, k, alpha, prefix, more, m = case
    for d in range(more + 1):
        for tail in itertools.product(LETTERS[alpha], repeat=d):
            history(dev, storage, k, list(prefix) + list(tail), m, ctx)
            if len(ctx.violations) > 60:
                return


class Watch:
    """Follows the tokens through what the mapper emits."""

    def __init__(self, sites, edges, n):
        self.sites, self.edges, self.n = None if sites is None else set(sites), edges, n
        self.at = {}  # site -> token
        self.log = {}  # token -> list of (gate id, role)
        self.birth = {}  # logical id -> token
        self.freed = []  # logical ids released
        self.meas = []
        self.swaps = 0
        self.helpers = 0

    def feed(self, cmd, logical):
        g = type(cmd.gate).__name__
        ids = [q.id for r in cmd.all_qubits for q in r]
        if g == 'FlushGate':
            return None
        for i in ids:
            if self.sites is not None and i not in self.sites:
                return f'{pq.str_cmd(cmd)}: there is no location {i}'
        if g == 'AllocateQubitGate':
            (i,) = ids
            if i in self.at:
                return f'location {i} allocated while it is in use'
            lg = logical(cmd)
            if lg is None:
                self.helpers += 1
                self.at[i] = ('h', self.helpers)
            else:
                if lg in self.birth:
                    return f'qubit {lg} allocated twice'
                self.at[i] = self.birth[lg] = ('q', lg)
            self.log[self.at[i]] = []
            return None
        for i in ids:
            if i not in self.at:
                return f'{pq.str_cmd(cmd)}: location {i} is not allocated'
        if g == 'DeallocateQubitGate':
            (i,) = ids
            t = self.at.pop(i)
            lg = logical(cmd)
            if t[0] == 'h':
                if lg is not None:
                    return f'qubit {lg} released at location {i}, which does not hold it'
                if self.log[t]:
                    return f'helper at location {i} was operated on: {self.log[t]}'
            else:
                if lg is None:
                    return f'location {i}, which holds the state {t}, was released without being asked for'
                self.log[t].append(('D', lg))
                self.freed.append(lg)
            return None
        if g == 'MeasureGate':
            (i,) = ids
            lg = pq.logical_tag(cmd)
            if lg is None:
                return 'measurement without logical id'
            self.log[self.at[i]].append(('M', lg))
            return None
        if len(ids) > 2:
            return f'{pq.str_cmd(cmd)}: more than two qubits'
        if len(ids) == 2 and self.edges is not None and tuple(sorted(ids)) not in {tuple(sorted(e)) for e in self.edges}:
            return f'{pq.str_cmd(cmd)}: locations {ids} are not connected'
        if g == 'SwapGate':
            a, b = ids
            self.at[a], self.at[b] = self.at[b], self.at[a]
            self.swaps += 1
            return None
        gid = gate_id(cmd.gate)
        roles = [('t', q.id) for r in cmd.qubits for q in r] + [('c' + s, q.id) for q, s in zip(cmd.control_qubits, cmd.control_state)]
        toks = [self.at[i] for _, i in roles]
        for (r, i), t in zip(roles, toks):
            self.log[t].append((gid, r, tuple(x for x in toks if x != t)))
        return None


def gate_id(g):
    return f'{type(g).__name__}{round(getattr(g, "angle", 0), 6)}'


class Source:
    """The same, for the program itself (every qubit stays where it is; swaps exchange tokens)."""

    def __init__(self):
        self.at, self.log = {}, {}
        self.dead = []

    def alloc(self, q):
        self.at[q] = ('q', q)
        self.log[('q', q)] = []

    def gate(self, gid, roles):
        toks = [self.at[i] for _, i in roles]
        for (r, i), t in zip(roles, toks):
            self.log[t].append((gid, r, tuple(x for x in toks if x != t)))

    def swap(self, a, b):
        self.at[a], self.at[b] = self.at[b], self.at[a]

    def meas(self, q):
        self.log[self.at[q]].append(('M', q))

    def free(self, q):
        t = self.at.pop(q)
        self.log[t].append(('D', q))
        self.dead.append(q)


def history(dev, storage, k, ops, init, ctx):
    from projectq import MainEngine
    from projectq.meta import Control
    from projectq.ops import C, Measure, NOT, Rx, Ry, Swap

    mapper, sites, edges, n, moving = device(dev, storage)
    cnot_only = dev.startswith('ibm5')
    if init is not None:
        mapper.current_mapping = {a: b for a, b in init}
    rec = pq.Recorder()
    eng = MainEngine(rec, [mapper])
    src, w = Source(), Watch(sites, edges, n)
    live = []
    owner = {}
    pos = [0]
    what = f'{dev} buffer {storage}{"" if init is None else f" initial map {dict(init)}"}, {k} qubits, then {" ".join(ops)}'
    bad = []
    order, over = [], []
    old = set()

    def logical(cmd):
        t = pq.logical_tag(cmd)
        if moving or t is not None:
            return t
        # static maps: the locations are fixed, so the next unreleased qubit reported there
        i = cmd.qubits[0][0].id
        m = mapper.current_mapping
        for q in order:
            if m.get(q) == i and ((q not in w.birth) if type(cmd.gate).__name__ == 'AllocateQubitGate' else (q not in w.freed)):
                return q
        return None

    def drain():
        while pos[0] < len(rec.cmds):
            e = w.feed(rec.cmds[pos[0]], logical)
            pos[0] += 1
            if e and not bad:
                bad.append(e)

    def settled():
        """After a flush everything is out."""
        m = mapper.current_mapping or {}
        used = [m[q] for q in m if q in src.at]
        if len(set(used)) != len(used):
            bad.append(f'two live qubits are reported at one location: {m}')
        for q, t in src.at.items():
            if q not in m:
                bad.append(f'live qubit {q} has no reported location')
            elif w.at.get(m[q]) != t:
                bad.append(f'qubit {q} is reported at location {m[q]}, which holds {w.at.get(m[q])} instead of {t}')
        if len(w.at) != len(src.at) and not bad:
            bad.append(f'locations in use {w.at}, live qubits {list(src.at)}')
        for t, l in src.log.items():
            if w.log.get(t) != l and not bad:
                bad.append(f'commands on {t}: program {l}, emitted {w.log.get(t)}')
        if sorted(w.freed) != sorted(src.dead) and not bad:
            bad.append(f'released {w.freed}, program {src.dead}')

    def do(op, step):
        L = len(live)

        def sel(c):
            return L - 1 if c == 'l' else int(c)
        if op == 'A':
            # the bounded allocator serves devices without reset: what was used since the last flush stays used
            spent = len([x for x in src.dead if x not in old]) if dev.startswith('bounded') else 0
            if n is not None and len(src.at) + spent >= n:
                over.append(op)
            q = eng.allocate_qubit()[0]
            live.append(q)
            order.append(q.id)
            src.alloc(q.id)
            return True
        if op == 'F':
            eng.flush()
            old.update(src.dead)
            drain()
            if not bad:
                settled()
            return True
        neg = op.startswith('n')
        body = op[1:] if neg else op
        kind, args = (body[:2], body[2:]) if body.startswith('CX') else (body[:1], body[1:])
        idx = [sel(c) for c in args]
        if any(i >= L or i < 0 for i in idx) or len(set(idx)) != len(idx):
            return False
        qs = [live[i] for i in idx]
        if kind == 'CX':
            if cnot_only:
                g = NOT
            else:
                g = Ry(0.1 + 0.001 * step)
            if neg:
                with Control(eng, qs[0], '0'):
                    g | qs[1]
            else:
                C(g) | (qs[0], qs[1])
            src.gate(gate_id(g), [('t', qs[1].id), ('c0' if neg else 'c1', qs[0].id)])
        elif kind == 'X':
            g = Rx(0.1 + 0.001 * step)
            g | qs[0]
            src.gate(gate_id(g), [('t', qs[0].id)])
        elif kind == 'S':
            if cnot_only:
                return False
            Swap | (qs[0], qs[1])
            src.swap(qs[0].id, qs[1].id)
        elif kind == 'M':
            Measure | qs[0]
            src.meas(qs[0].id)
        elif kind == 'D':
            q = live.pop(idx[0])
            i = q.id
            eng.deallocate_qubit(q)
            src.free(i)
        return True

    raised, done = None, []
    try:
        for _ in range(k):
            do('A', 0)
        for step, op in enumerate(ops):
            if not do(op, step + 1):
                return
            done.append(op)
            drain()
            if bad:
                break
        if not bad:
            eng.flush()
            drain()
            if not bad:
                settled()
    except Exception as e:  # noqa
        raised = e
    ctx.tr(len(done) + k + 1)
    mapped = mapper.current_mapping
    if raised is not None:
        drain()
    sims.sink(eng)
    for q in list(eng.active_qubits):
        q.id = -1
    # ---- verdict
    if raised is not None:
        msg = f'{type(raised).__name__}: {str(raised).strip().splitlines()[0] if str(raised).strip() else ""}'
        ctx.outcome('refused' if over else 'raised')
        if over and isinstance(raised, RuntimeError):
            ctx.trace()
            return
        if cnot_only and isinstance(raised, RuntimeError) and (not embeddable(src, edges, order) or len(order) > 5):
            ctx.trace()
            ctx.outcome('not embeddable')
            return
        ctx.fail(sig(dev, 'raises', type(raised).__name__), f'{what}: {msg}')
        return
    ctx.trace()
    if bad:
        ctx.fail(sig(dev, 'wrong', bad[0].split(':')[0][:40]), f'{what}: {bad[0]}')
        return
    if not (w.helpers == 0 and w.swaps == 0 and (mapped is None or all(a == b for a, b in mapped.items()))):
        ctx.key((dev, storage, k, init, tuple(ops)))
    ctx.state((dev, tuple(sorted(w.at.items())), tuple(sorted((mapped or {}).items()))))
    ctx.outcome(f'{w.swaps} swaps' if w.swaps < 6 else '6+ swaps')


def embeddable(src, edges, order):
    """Is there a placement of all the program's qubits that puts every interacting pair on an edge?"""
    pairs = set()
    for t, l in src.log.items():
        for e in l:
            if len(e) == 3 and e[2]:
                pairs.add(tuple(sorted((t[1], e[2][0][1]))))
    und = {tuple(sorted(e)) for e in edges}
    for p in itertools.permutations(range(5), min(5, len(order))):
        m = dict(zip(order, p))
        if len(order) <= 5 and all(tuple(sorted((m[a], m[b]))) in und for a, b in pairs):
            return True
    return False


def sig(dev, *a):
    return ' '.join((dev.split(':')[0],) + a)


# ---------------------------------------------------------------- swap routing
def run_route(case, ctx):
    from projectq.cengines import GridMapper

    _, r, c, dom = case
    n = r * c
    m = GridMapper(r, c)
    edges = {tuple(sorted(e)) for e in grid(r, c)}
    old = {100 + i: p for i, p in enumerate(dom)}
    for img in itertools.permutations(range(n), len(dom)):
        new = {100 + i: p for i, p in enumerate(img)}
        free = [p for p in range(n) if p not in img]
        extras = [{}] + ([{7: free[-1]}] if free and len(dom) <= 3 else [])
        for ex in extras:
            for perm in [None] + (list(itertools.permutations(range(r))) if n <= 6 else []):
                o = dict(old)
                if ex:
                    used = [p for p in range(n) if p not in dom]
                    o[8] = used[0]  # a qubit that is gone in the new map
                nw = {**new, **ex}
                swaps = m.return_swaps(dict(o), dict(nw), permutation=None if perm is None else list(perm))
                ctx.tr(1 + len(swaps))
                at = {p: q for q, p in o.items()}
                for a, b in swaps:
                    if tuple(sorted((a, b))) not in edges:
                        ctx.fail('route edge', f'{r}x{c}: {o} -> {nw}, rows {perm}: swap {(a, b)} is not on an edge')
                        return
                    at[a], at[b] = at.get(b), at.get(a)
                for q in o:
                    if q in nw and at.get(nw[q]) != q:
                        ctx.fail('route wrong', f'{r}x{c}: {o} -> {nw}, rows {perm}: swaps {swaps} leave qubit {q} elsewhere')
                        return
                ctx.trace()
                if swaps:
                    ctx.key((r, c, tuple(dom), img, perm, bool(ex)))
    ctx.state((r, c, tuple(dom)))


# ---------------------------------------------------------------- LinearMapper.return_new_mapping
def run_newmap(case, ctx):
    from projectq.cengines import DummyEngine, LinearMapper
    from projectq.ops import Allocate, Command, Deallocate, Rzz
    from projectq.types import WeakQubitRef

    _, n, cyc, k, first, depth = case
    pairs = list(itertools.combinations(range(n), 2)) + [('A',)] + [('D', i) for i in range(n)]
    eng = DummyEngine()

    def qb(i):
        return ([WeakQubitRef(eng, i)],)
    tails = [t for d in range(depth) for t in itertools.product(pairs, repeat=d)]
    maps = [None] + [dict(zip(range(k), p)) for p in itertools.permutations(range(n), k)] if k else [None]
    for tail in tails:
        cmds, live, nxt, ok, alloc = [], set(range(k)), k, True, set(range(k))
        firstpair = None
        for p in (tuple(first),) + tail:
            if p[0] == 'A':
                if len(live) >= n or nxt > n + 1:
                    ok = False
                    break
                cmds.append(Command(eng, Allocate, qb(nxt)))
                live.add(nxt)
                nxt += 1
            elif p[0] == 'D':
                if p[1] not in live:
                    ok = False
                    break
                cmds.append(Command(eng, Deallocate, qb(p[1])))
                live.discard(p[1])
            else:
                if not set(p) <= live:
                    ok = False
                    break
                cmds.append(Command(eng, Rzz(0.3), qb(p[0]) + qb(p[1])))
                if firstpair is None and len(cmds) and not any(type(x.gate).__name__ == 'AllocateQubitGate' for x in cmds):
                    firstpair = p
        if not ok:
            continue
        for cm in maps:
            new = LinearMapper.return_new_mapping(n, cyc, set(range(k)), list(cmds), None if cm is None else dict(cm))
            ctx.tr()
            what = f'n={n} cyclic={cyc} live {k} map {cm} commands {pq.show(cmds)} -> {new}'
            if len(set(new.values())) != len(new) or not set(new.values()) <= set(range(n)):
                ctx.fail('newmap not injective', what)
                return
            if not set(range(k)) <= set(new):
                ctx.fail('newmap loses', what)
                return
            if firstpair is not None:
                d = abs(new[firstpair[0]] - new[firstpair[1]])
                if d != 1 and not (cyc and d == n - 1):
                    ctx.fail('newmap distance', what + f': {firstpair} are not neighbours')
                    return
            ctx.trace()
            ctx.key((n, cyc, k, tuple(map(str, cmds)), str(cm)))


# ---------------------------------------------------------------- CNOT flipper
def run_flip(case, ctx):
    from projectq import MainEngine
    from projectq.cengines import SwapAndCNOTFlipper
    from projectq.meta import Compute, Control, Uncompute
    from projectq.ops import CNOT, C, H, Rxx, Rz, SqrtSwap, Swap, X, Y, Z

    _, n, g = case
    pairs = list(itertools.combinations(range(n), 2))
    conn = set()
    for (a, b), v in zip(pairs, g):
        if v & 1:
            conn.add((a, b))
        if v & 2:
            conn.add((b, a))
    und = {tuple(sorted(e)) for e in conn}
    ops = [('cx', a, b) for a, b in itertools.permutations(range(n), 2)] + [('ncx', a, b) for a, b in itertools.permutations(range(n), 2)] + [('sw', a, b) for a, b in itertools.permutations(range(n), 2)]
    ops += [('tag', a, b) for a, b in itertools.permutations(range(n), 2)]
    OTHER = {'cz': (C(Z), 2), 'cy': (C(Y), 2), 'ch': (C(H), 2), 'crz': (C(Rz(0.7)), 2), 'rxx': (Rxx(0.4), 2), 'sqsw': (SqrtSwap, 2), 'ccx': (C(X, 2), 3), 'csw': (C(Swap), 3)}  # not its business
    ops += [(k, a, b) for k, (_, w) in OTHER.items() if w <= n for a, b in itertools.permutations(range(n), 2)]
    seqs = [(o,) for o in ops] + (list(itertools.product(ops, repeat=2)) if n == 2 else [])
    for seq in seqs:
        rec, plain = pq.Recorder(), pq.Recorder()
        res = []
        for r, engs in ((rec, [SwapAndCNOTFlipper(set(conn))]), (plain, [])):
            eng = MainEngine(r, engs)
            q = eng.allocate_qureg(n)
            err = None
            try:
                for o, a, b in seq:
                    Rz(0.3) | q[a]
                    if o == 'cx':
                        CNOT | (q[a], q[b])
                    elif o == 'ncx':
                        with Control(eng, q[a], '0'):
                            X | q[b]
                    elif o == 'sw':
                        Swap | (q[a], q[b])
                    elif o in OTHER:
                        gate, w = OTHER[o]
                        third = [q[k] for k in range(n) if k not in (a, b)][:w - 2]
                        gate | ((q[a], *third, q[b]) if w > 2 else (q[a], q[b]))
                    else:
                        with Compute(eng):
                            CNOT | (q[a], q[b])
                        H | q[a]
                        Uncompute(eng)
                eng.flush()
            except RuntimeError as e:
                err = e
            for x in q:
                x.id = -1
            sims.sink(eng)
            res.append(err)
            ctx.tr(len(seq))
        fits = all(o in OTHER or tuple(sorted((a, b))) in und for o, a, b in seq)
        swapfits = all(o[0] != 'sw' or tuple(sorted(o[1:])) in und for o in seq)
        if res[0] is not None:
            ctx.outcome('refused')
            if fits:
                ctx.fail('flip refuses', f'connections {conn}: {seq} refused: {res[0]}')
                return
            ctx.trace()
            continue
        if not fits:
            # it only rewrites what it can; what it leaves unchanged is not its business
            ctx.outcome('passed on')
            if not swapfits:
                ctx.fail('flip accepts', f'connections {conn}: {seq} accepted')
                return
            ctx.trace()
            continue
        for c in rec.cmds:
            ids = [x.id for x in c.control_qubits] + [x.id for r in c.qubits for x in r]
            if len(ids) == 2 and type(c.gate).__name__ in ('XGate', 'SwapGate') and tuple(ids) not in conn:
                ctx.fail('flip direction', f'connections {conn}: {seq} -> {pq.show(rec.cmds)}: {ids}')
                return
        from mc import ref

        A = pq.compiled_result(rec.cmds, list(range(n)))
        B = pq.compiled_result(plain.cmds, list(range(n)))
        d = ref.same_op(A, B, up_to_phase=True)
        ctx.trace()
        ctx.key((tuple(conn), seq))
        if not d:
            ctx.fail('flip changes', f'connections {conn}: {seq} -> {pq.show(rec.cmds)}')
            return
    for answer in (True, False):  # it can do the swaps itself, everything else is up to the engines behind it
        rec = pq.Recorder()
        seen = []
        rec.is_available = lambda cmd: seen.append(cmd) or answer
        flipper = SwapAndCNOTFlipper(set(conn))
        eng = MainEngine(rec, [flipper])
        q = eng.allocate_qureg(n)
        for nm, (gate, w) in {**OTHER, 'cx': (CNOT, 2), 'swap': (Swap, 2), 'x': (X, 1)}.items():
            if w > n:
                continue
            cmd = gate.generate_command(tuple(q[:w]) if w > 1 else q[0]) if not hasattr(gate, '_gate') else None
            if cmd is None:
                inner = gate._gate
                while hasattr(inner, '_gate'):
                    inner = inner._gate
                k = 2 if type(inner) is type(Swap) else 1
                cmd = inner.generate_command(tuple(q[w - k:w]) if k > 1 else q[w - 1])
                cmd.add_control_qubits(q[:w - k])
            want = nm == 'swap' or answer
            if bool(flipper.is_available(cmd)) != want:
                ctx.fail('flip availability', f'connections {conn}: {nm} is reported as {"un" if want else ""}available, the next engine says {answer}')
            ctx.trace()
        for x in q:
            x.id = -1
        sims.sink(eng)
    ctx.state(tuple(sorted(conn)))
