"""C13: emulated arithmetic gates compute the documented function on every input, on every simulator."""
import itertools
import math

import numpy as np

from mc import sims
from mc.checks import c14

ID = 'C13'
RULE = ('every arithmetic gate and inverse x register width x constants and moduli x number (and, classically, values) of controls x memory layouts x simulator (compiled, Python fallback, '
        'classical); quantum simulators get one superposition with distinct amplitudes over the whole documented domain, the classical one every input. Non-trivial: some input is changed')
ASSUMPTIONS = ['documented domains as in C14', 'custom math gates are bijections']
CHUNK = 4


def table(name, par, n, nctl):
    if name == 'Custom':
        return [n, n + 1], [lambda v: [v[0], v[1] ^ v[0]], lambda v: [(v[0] + v[1]) % 2 ** n, v[1]], lambda v: [v[0], (v[1] * 3 + v[0]) % 2 ** (n + 1)]][par[0]]
    if name == 'Swapish':
        return [n, n], lambda v: [v[1], v[0]]
    return c14.table(name, par, n, nctl, True)


def gate_of(name, par, n):
    from projectq.ops import BasicMathGate

    if name == 'Custom':
        return [BasicMathGate(lambda a, b: (a, b ^ a)), BasicMathGate(lambda a, b: ((a + b) % 2 ** n, b)), BasicMathGate(lambda a, b: (a, 3 * b + a))][par[0]]
    if name == 'Swapish':
        return BasicMathGate(lambda a, b: (b, a))
    return c14.gate_of(name, par)


def layouts(k):
    """positions in memory of the k logical bits, among k + 1 qubits (one spectator)"""
    ident = list(range(k))
    rev = [k - i for i in range(k)]
    inter = [(i * 2) % (k + 1) if (k + 1) % 2 else (i * 2 + (i * 2 >= k + 1)) % (k + 1) for i in range(k)]
    out = [ident, rev]
    if len(set(inter)) == k:
        out.append(inter)
    rot = [(i + 1 + k // 2) % (k + 1) for i in range(k)]
    out.append(rot)
    return out


def gates(tier):
    T = tier != 'quick'
    out = []
    for n in (1, 2, 3) + ((4, 5) if T else (4,)):
        full = n <= 3 or T and n == 4
        for a in range(-2 ** n - 1, 2 ** (n + 1) + 2):
            if full or a % 5 == 0:
                out += [('Add', [a], n), ('Sub', [a], n)]
                if n <= 2:
                    out += [('inv:Add', [a], n), ('inv:Sub', [a], n)]
        for N in range(1, 2 ** n + 1):
            for a in range(N):
                if full or (a * N) % 13 == 0:
                    out += [('AddMod', [a, N], n), ('SubMod', [a, N], n)]
                    if n <= 2:
                        out += [('inv:AddMod', [a, N], n), ('inv:SubMod', [a, N], n)]
                    if np.gcd(a, N) == 1:
                        out.append(('MulMod', [a, N], n))
        for x in ('AddQ', 'SubQ', 'AddQc', 'Comp', 'Div') + (('Mul',) if n <= 3 else ()):
            out += [(x, [], n), ('inv:' + x, [], n)]
        if n <= 3:
            out += [('Custom', [i], n) for i in range(3)] + [('Swapish', [], n)]
    return out


def cases(tier):
    T = tier != 'quick'
    out = [['eq'], ['inverse']]
    for g in gates(tier):
        wide = g[2] >= 4 or g[0].endswith('Mul') and g[2] == 3
        for kind in ('cpp', 'py', 'classical'):
            if wide and kind == 'py' and not T:
                continue
            for nctl in (0, 1, 2):
                if wide and nctl == 2 and not T:
                    continue
                out.append([kind, g[0], list(g[1]), g[2], nctl])
    for a, N in ((70001, 99991), (131071, 131072 - 1 + 1), (65535, 65536), (3, 100000), (99990, 99991)):
        if np.gcd(a, N) == 1:
            out += [[k, 'MulMod', [a, N], 17, 0] for k in ('cpp', 'classical')]
    out += [[k, 'Add', [a], 17, 0] for k in ('cpp', 'classical') for a in (-1, 65536, 131071)]
    for n in (8, 31, 32, 33, 53, 54, 63, 64, 65) + ((16, 100, 200) if T else ()):
        for x in ('AddQ', 'SubQ', 'AddQc', 'Comp', 'Div', 'Mul'):
            out += [['wide', x, [], n, c] for c in (0, 1)] + [['wide', 'inv:' + x, [], n, 0]]
        for a in sorted({-2 ** n - 1, -2 ** (n - 1), -1, 0, 1, 2 ** (n - 1), 2 ** n - 1, 2 ** n, 2 ** (n + 1) + 1}):
            out += [['wide', 'Add', [a], n, 0], ['wide', 'Sub', [a], n, 1], ['wide', 'inv:Add', [a], n, 0]]
        for N in (2 ** (n - 1) - 1, 2 ** (n - 1) + 1, 2 ** n - 1, 2 ** n):
            for a in sorted({0, 1, 2, N // 2, N // 2 + 1, N - 2, N - 1}):
                out += [['wide', 'AddMod', [a, N], n, 1], ['wide', 'inv:AddMod', [a, N], n, 0]] + ([['wide', 'MulMod', [a, N], n, 1]] if math.gcd(a, N) == 1 else [])
    out.sort(key=lambda c: c[3] if len(c) > 3 else 0)
    return out


def split(x, sizes):
    v = []
    for k in sizes:
        v.append(int(x) & 2 ** k - 1)
        x = int(x) >> k
    return v


def join(v, sizes):
    r, s = 0, 0
    for k, y in zip(sizes, v):
        assert 0 <= y < 2 ** k, (v, sizes)
        r |= int(y) << s
        s += k
    return r


def run(case, ctx):
    if case[0] == 'eq':
        return run_eq(ctx)
    if case[0] == 'inverse':
        return run_inverse(ctx)
    kind, name, par, n, nctl = case
    sizes, f = table(name, par, n, nctl)
    k = sum(sizes) + nctl
    if kind == 'wide':
        return wide(case, sizes, f, ctx)
    if kind == 'classical':
        return classical(case, sizes, f, ctx)
    for lay in layouts(k) if k < 12 else layouts(k)[1:2]:
        for mode in ('gate', 'dagger') if not name.startswith(('Custom', 'Swapish')) and 'MulMod' not in name else ('gate',):
            if mode == 'dagger' and lay != layouts(k)[-1]:
                continue
            nm = name if mode == 'gate' else name[4:] if name.startswith('inv:') else 'inv:' + name
            quantum(case, nm, mode, lay, ctx)


def domain(sizes, f, nctl, xs=None):
    """inputs (bits: registers then controls) -> outputs, where the function is documented"""
    m = sum(sizes)
    res = {}
    for r in range(2 ** m) if xs is None else xs:
        y = f(split(r, sizes))
        if y is None:
            continue
        y = join(y, sizes)
        for c in range(2 ** nctl):
            res[r | c << m] = (y if c == 2 ** nctl - 1 else r) | c << m
    return res


def quantum(case, nm, mode, lay, ctx):
    from projectq.meta import Control, Dagger

    kind, name, par, n, nctl = case
    sizes, f = table(nm, par, n, nctl)
    k = sum(sizes) + nctl
    sig = f'{kind} {name}{tuple(par)} n={n} controls={nctl} {mode} layout={lay}'
    sim = sims.make(kind)
    eng = sims.engine(sim)
    q = eng.allocate_qureg(k + 1)
    eng.flush()
    dom = domain(sizes, f, nctl)
    if not dom:
        return
    ids = [x.id for x in q]
    # bit i of the abstract input is qubit q[i]; it sits at position lay[i]
    order = [None] * (k + 1)
    for i, p in enumerate(lay):
        order[p] = q[i]
    spare = [p for p in range(k + 1) if order[p] is None][0]
    order[spare] = q[k]
    xs = np.array(list(dom))
    amp = (1.0 + np.arange(len(xs))) * np.exp(0.7j * np.arange(len(xs)))
    want = np.zeros(2 ** (k + 1), dtype=complex)
    start = np.zeros(2 ** (k + 1), dtype=complex)
    ys = np.array([dom[x] for x in dom])
    for s, fac in ((0, .6), (1, .8j)):
        start[xs | s << k] = fac * amp
        want[ys | s << k] = fac * amp
    nrm = np.linalg.norm(start)
    start, want = start / nrm, want / nrm
    # memory index of abstract index
    perm = np.zeros(2 ** (k + 1), dtype=np.int64)
    ar = np.arange(2 ** (k + 1))
    for i, p in enumerate(lay + [spare]):
        perm |= (ar >> i & 1) << p
    mem = np.zeros_like(start)
    mem[perm] = start
    sim.set_wavefunction(mem, order)
    g = gate_of(name, par, n)
    regs, s = [], 0
    for w in sizes:
        regs.append([q[i] for i in range(s, s + w)])
        s += w
    ctl = [q[i] for i in range(s, s + nctl)]

    def act(g=g):
        if mode == 'dagger':
            with Dagger(eng):
                g | tuple(regs)
        else:
            g | tuple(regs)
    if nctl:
        with Control(eng, ctl):
            act()
    else:
        act()
    eng.flush()
    ctx.trace()
    ctx.tr()
    ctx.outcome(f'{kind} {nm} {nctl}')
    if any(x != y for x, y in dom.items()):
        ctx.key(sig)
    got = sims.vector(sim, ids)
    ctx.state(np.round(got, 6).tobytes())
    if np.max(np.abs(got - want)) > 1e-9:
        bad = [x for x in dom if abs(got[dom[x]] - want[dom[x]]) > 1e-9]
        x = bad[0] if bad else 0
        b = int(np.argmin(np.abs(got - start[x])))
        ctx.fail(sig, f'{len(bad)} of {len(dom)} inputs wrong, e.g. {split(x, sizes)} controls {x >> sum(sizes)} expected {split(dom.get(x, 0), sizes)}, got {split(b, sizes)}')
    q = order = regs = ctl = None
    sims.sink(eng)


def classical(case, sizes, f, ctx):
    from projectq.backends import ClassicalSimulator
    from projectq.meta import Control

    kind, name, par, n, nctl = case
    m = sum(sizes)
    xs = None
    if m > 10:
        xs = range(0, 2 ** m, (2 ** m // 800) | 1)
        if 'Div' in name or 'Mul' in name and m > 1 and len(sizes) > 1:
            xs = [join(v, sizes) for v in itertools.product(range(0, 2 ** sizes[0], 3), range(2 ** sizes[1]), range(min(64, 2 ** sizes[2]))) if f(list(v)) is not None]
    for state in itertools.product('10', repeat=nctl) if n <= 2 else [('1',) * nctl]:
        sim = ClassicalSimulator()
        eng = sims.engine(sim)
        lay = layouts(m + nctl)[-1]
        q = eng.allocate_qureg(m + nctl + 1)
        bit = [q[p] for p in lay]
        spare = [q[p] for p in range(m + nctl + 1) if p not in lay]
        regs, s = [], 0
        for w in sizes:
            regs.append(bit[s:s + w])
            s += w
        ctl = bit[s:]
        g = gate_of(name, par, n)
        sig = f'{kind} {name}{tuple(par)} n={n} controls={"".join(state)}'
        cbits = int(''.join(state)[::-1], 2) if state else 0
        for r in range(2 ** m) if xs is None else xs:
            y = f(split(r, sizes))
            if y is None:
                continue
            for c in range(2 ** nctl):
                for sp in (0, 1) if r == 0 else (r & 1,):
                    sim.write_register(bit, r | c << m)
                    sim.write_bit(spare[0], sp)
                    if nctl:
                        with Control(eng, ctl, ''.join(state)):
                            g | tuple(regs)
                    else:
                        g | tuple(regs)
                    eng.flush()
                    want = (join(y, sizes) if c == cbits else r) | c << m
                    got = sim.read_register(bit)
                    ctx.trace()
                    ctx.tr()
                    if want != r | c << m:
                        ctx.key((sig, r, c))
                    if got != want or sim.read_bit(spare[0]) != sp:
                        ctx.fail(sig, f'{split(r, sizes)} with controls {c}: expected {split(want, sizes)}, got {split(got, sizes)}, spectator {sim.read_bit(spare[0])}')
                        q = bit = regs = ctl = spare = None
                        sims.sink(eng)
                        return
        ctx.outcome(f'{kind} {name} {nctl}')
        q = bit = regs = ctl = spare = None
        sims.sink(eng)


def wide(case, sizes, f, ctx):
    """registers far wider than a machine word allows for in a state vector: boundary words on the classical simulator"""
    from projectq.backends import ClassicalSimulator
    from projectq.meta import Control

    _, name, par, n, nctl = case
    dom = [v for v in itertools.product(*[sorted(set(c14.words(k) + ([par[1] - 1, par[1] // 2] if len(par) > 1 else []))) for k in sizes[:2]], *[[0, 1] if k == 1 else [0] if not par and 'Div' not in name else c14.words(k)
                                                                                                                                for k in sizes[2:]])]
    if name == 'inv:Mul':
        dom = [(x, y, x * y) for x, y, _ in dom]
    if name == 'Div':
        dom = [(x, 0, z) for x in c14.words(n) for z in c14.words(n)]
    if name == 'inv:Div':
        back = c14.table('Div', [], n, 0)[1]
        dom = [tuple(back([x, 0, z]) or (0, 0, 0)) for x in c14.words(n) for z in c14.words(n)]
    dom = [v for v in dict.fromkeys(dom) if f(list(v)) is not None]
    sig = f'wide {name}{tuple(par)} n={n} controls={nctl}'
    sim = ClassicalSimulator()
    eng = sims.engine(sim)
    bits = eng.allocate_qureg(sum(sizes) + nctl + 1)
    bad = None
    regs, s = [], 1
    for w in sizes:
        regs.append(bits[s:s + w][::-1])
        s += w
    ctl = bits[s:]
    for v in dom:
        for c in range(2 ** nctl):
            for r, x in zip(regs, v):
                sim.write_register(r, x)
            sim.write_register(ctl, c)
            sim.write_bit(bits[0], 1)
            with Control(eng, ctl):
                gate_of(name, par, n) | tuple(regs)
            eng.flush()
            ctx.trace()
            ctx.tr()
            want = tuple(int(y) for y in f(list(v))) if c == 2 ** nctl - 1 else tuple(v)
            if want != tuple(v):
                ctx.key((sig, v, c))
            got = tuple(sim.read_register(r) for r in regs)
            if got != want or sim.read_register(ctl) != c or sim.read_bit(bits[0]) != 1:
                bad = f'{v} with controls {c}: expected {want}, got {got}'
                break
        if bad:
            break
    if bad:
        ctx.fail(sig, bad)
    ctx.outcome(f'wide {name} {nctl}')
    bits = regs = ctl = r = None
    sims.sink(eng)


def run_eq(ctx):
    """equality, hashes and names of all gates with small parameters"""
    pool = []
    for name, par, n in gates('quick'):
        if n <= 2 and name not in ('Custom', 'Swapish'):
            pool.append((name, tuple(par)))
    pool = sorted(set(pool))

    def behaviour(name, par):
        """the function on every width, as far as it is documented"""
        out = []
        for n in (1, 2, 3):
            sizes, f = c14.table(name, list(par), n, 0, True)
            if len(sizes) == 3 and sizes[2] > 3:
                continue
            out.append([None if f(split(x, sizes)) is None else tuple(int(v) for v in f(split(x, sizes))) for x in range(2 ** sum(sizes))])
        return out
    fam = {'Add': 'A', 'Sub': 'A', 'AddMod': 'M', 'SubMod': 'M', 'MulMod': 'X', 'AddQc': 'AddQ'}
    beh = {}
    for p in pool:
        if p[0].endswith('Qc'):
            continue
        beh[p] = behaviour(*p)
    for (a, b) in itertools.product(beh, repeat=2):
        g, h = c14.gate_of(a[0], list(a[1])), c14.gate_of(b[0], list(b[1]))
        ctx.trace()
        eq = g == h
        sig = f'equality {a} {b}'
        if (g != h) == eq or (h == g) != eq:
            ctx.fail(sig, 'equality is not symmetric or not the opposite of inequality')
        if eq and beh[a] != beh[b]:
            ctx.fail(sig, 'gates that compute different functions compare equal')
        if eq and hash(g) != hash(h):
            ctx.fail(sig, 'equal gates have different hashes')
        if a == b:
            ctx.key(sig)
            if not eq or str(g) != str(h):
                ctx.fail(sig, 'the same gate built twice is not equal')
        if eq and str(g) != str(h) or str(g) == str(h) and beh[a] != beh[b]:
            ctx.fail(sig, f'names {g} and {h}')
    from projectq import ops as O

    for p in beh:
        g = c14.gate_of(p[0], list(p[1]))
        for o in (O.X, O.Swap, O.Rx(.1), O.Measure, 3, 'AddConstant(1)', None, O.BasicMathGate(lambda x: (x,))):
            ctx.trace()
            if g == o or o == g:
                ctx.fail(f'equality {p} {o}', 'an arithmetic gate equals something else')


def run_inverse(ctx):
    """inverses: offered or refused; the inverse of the inverse computes the gate's function"""
    from projectq.ops import NotInvertible, get_inverse

    for name, par, n in gates('quick'):
        if name in ('Custom', 'Swapish') or n > 2:
            continue
        sig = f'inverse {name}{tuple(par)}'
        ctx.trace()
        g = c14.gate_of(name, par)
        if name == 'MulMod':
            try:
                g.get_inverse()
                ctx.fail(sig, 'modular multiplication offers no inverse')
            except NotInvertible:
                pass
            continue
        for h in (g.get_inverse().get_inverse(), get_inverse(get_inverse(g))):
            sizes, f = c14.table(name, par, n, 0, True)

            class Q:
                def __init__(self, k):
                    self.k = k

                def __len__(self):
                    return self.k
            qs = [[None] * w for w in sizes]
            for x in range(2 ** sum(sizes)):
                v = f(split(x, sizes))
                if v is None:
                    continue
                got = [int(y) & 2 ** w - 1 for y, w in zip(h.get_math_function(qs)(list(split(x, sizes))), sizes)]
                ctx.tr()
                ctx.key((sig, x))
                if got != [int(y) for y in v]:
                    return ctx.fail(sig, f'the inverse of the inverse maps {split(x, sizes)} to {got}, expected {v}')
