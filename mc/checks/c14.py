"""C14: the circuits generated for arithmetic gates are the arithmetic on every basis state, without phases, helpers returned."""
import itertools
import math

import numpy as np

from mc import pq, ref, refmath

ID = 'C14'
RULE = ('every arithmetic gate / library routine x register width x constants and moduli x number and values of controls x forward, inverse and daggered x replaced down to '
        'elementary gates with two target sets; all basis states of the documented domain at once (full columns of the unitary incl. phases). Non-trivial: width > 1 or controlled')
ASSUMPTIONS = ['documented domains: modular arithmetic on values below N, division with non-zero divisor not above the dividend and zero remainder register, product register zero']
CHUNK = 2


def gate_of(name, par):
    from projectq import ops as O
    from projectq.libs import math as M
    from projectq.libs.math import _gates as G

    inv = name.startswith('inv:')
    n = name[4:] if inv else name
    g = {'Add': lambda a: M.AddConstant(a), 'Sub': lambda a: M.SubConstant(a), 'AddMod': lambda a, N: M.AddConstantModN(a, N), 'SubMod': lambda a, N: M.SubConstantModN(a, N),
         'MulMod': lambda a, N: M.MultiplyByConstantModN(a, N), 'AddQ': lambda: M.AddQuantum, 'AddQc': lambda: M.AddQuantum, 'SubQ': lambda: M.SubtractQuantum,
         'Comp': lambda: M.ComparatorQuantum, 'Div': lambda: M.DivideQuantum, 'Mul': lambda: M.MultiplyQuantum}[n](*par)
    return O.get_inverse(g) if inv else g


def table(name, par, n, nctl, fn=False):
    """sizes and reference function (partial) of the named operation"""
    inv = name.startswith('inv:')
    b = name[4:] if inv else name
    N2 = 2 ** n
    if b in ('Add', 'Sub'):
        a = par[0] * (1 if b == 'Add' else -1) * (-1 if inv else 1)
        return [n], lambda v: [(v[0] + a) % N2]
    if b in ('AddMod', 'SubMod'):
        a, N = par
        a = a * (1 if b == 'AddMod' else -1) * (-1 if inv else 1)
        return [n], lambda v: [(v[0] + a) % N] if v[0] < N else None
    if b == 'MulMod':
        a, N = par
        if inv:
            a = pow(a, -1, N) if N > 1 else 0
        return [n], lambda v: [v[0] * a % N] if v[0] < N else None
    if b in ('AddQ', 'SubQ'):
        s = (1 if b == 'AddQ' else -1) * (-1 if inv else 1)
        return [n, n], lambda v: [v[0], (v[1] + s * v[0]) % N2]
    if b == 'AddQc':
        k = 1 if nctl == 0 or fn else 2

        def f(v):
            if v[2] > 1:
                return None
            t = v[1] + v[0] if not inv else v[1] - v[0]
            return [v[0], t % N2, v[2] ^ (not 0 <= t < N2)]
        return [n, n, k], f
    if b == 'Comp':
        return [n, n, 1], lambda v: [v[0], v[1], v[2] ^ (v[0] > v[1])]
    if b == 'Div':
        if not inv:
            return [n, n, n], lambda v: [v[0] % v[2], v[0] // v[2], v[2]] if v[1] == 0 and 0 < v[2] <= v[0] else None
        return [n, n, n], lambda v: [v[0] + v[1] * v[2], 0, v[2]] if 0 <= v[0] < v[2] and v[1] > 0 and v[0] + v[1] * v[2] < N2 else None
    if b == 'Mul':
        if not inv:
            return [n, n, 2 * n + 1], lambda v: [v[0], v[1], v[0] * v[1]] if v[2] == 0 else None
        return [n, n, 2 * n + 1], lambda v: [v[0], v[1], 0] if v[2] == v[0] * v[1] else None
    raise KeyError(name)


def cases(tier):
    T = tier != 'quick'
    out = []

    def add(name, par, n, ctls=(0, 1), modes=('gate',)):
        for c in ctls:
            for s in ([''] if c == 0 else ['1' * c] + (['0' + '1' * (c - 1)] if n <= 2 else [])):
                for m in modes:
                    out.append([name, list(par), n, s, m])

    for n in (1, 2, 3, 4, 5) + ((6,) if T else ()):
        for a in range(-2 ** n, 2 ** (n + 1) + 1):
            if n >= 4 and a % (n - 1) and not T:
                continue
            add('Add', [a], n, (0, 1, 2) if n <= 3 or T else (0, 1), ('gate', 'fn') if n <= 3 else ('gate',))
            if n <= 3:
                add('inv:Add', [a], n, (0, 1))
                add('Sub', [a], n, (0, 1), ('gate', 'dagger'))
        for N in range(1, 2 ** n + 1):
            for a in range(0, N):
                if n > 3 and not T and (a * N) % (3 if n == 4 else 23):
                    continue
                if n > 4 and (a * N) % 5:
                    continue
                add('AddMod', [a, N], n, (0, 1) if n <= 4 or T else (0,), ('gate', 'fn') if n <= 3 else ('gate',))
                add('inv:AddMod', [a, N], n, (0, 1) if n <= 2 else (0,), ('gate',))
                if n <= 3:
                    add('SubMod', [a, N], n, (0, 1), ('gate', 'dagger'))
                if N > 1 and np.gcd(a, N) == 1 and (n <= 3 or n == 4 and (T or (a * N) % 5 == 0) or T and n == 5 and (a * N) % 40 == 0):
                    add('MulMod', [a, N], n, (0, 1) if n <= 3 or T else (0,), ('gate', 'fn') if n <= 2 else ('gate',))
    for n in (1, 2, 3, 4, 5) + ((6,) if T else ()):
        for x in ('AddQ', 'SubQ', 'AddQc', 'Comp'):
            add(x, [], n, (0, 1, 2, 3) if n <= 3 or T else (0, 1, 2), ('gate', 'fn', 'dagger') if n <= 4 else ('gate',))
            add('inv:' + x, [], n, (0, 1, 2) if n <= 4 else (0, 1))
        add('Div', [], n, (0, 1), ('gate', 'fn', 'dagger') if n <= 4 else ('gate',))
        add('inv:Div', [], n, (0, 1))
        if n <= 4:
            add('Mul', [], n, (0, 1), ('gate', 'fn', 'dagger') if n <= 3 else ('gate',))
            add('inv:Mul', [], n, (0, 1))
    out += [['invmod', N] for N in range(2, 80 if not T else 300)]
    out += [['invwide', b] for b in range(8, 72 if not T else 200)]
    for n in (6, 8, 16, 33, 54, 64) + ((7, 9, 31, 32, 53, 63, 65, 100) if T else ()):
        for x in ('AddQ', 'SubQ', 'AddQc', 'Comp') + (('Div', 'Mul') if n <= 16 else ()):
            for nm in (x, 'inv:' + x):
                for st in ('', '1', '0') if n <= 16 or T else ('', '1'):
                    out.append(['wide', nm, n, st, '', ()])
        for N in sorted({2 ** (n - 1) - 1, 2 ** (n - 1), 2 ** (n - 1) + 1, 2 ** n - 1, 2 ** n, 2 ** n - 5, 2 ** (n - 1) + 7, 3 * 2 ** (n - 2)}):
            for a in sorted({1, 2, 3, N // 2, N // 2 + 1, N // 3 + 1, N - 2, N - 1}):
                for st in ('', '1'):
                    out.append(['wide', 'AddMod', n, st, 'const', (a, N)])
                    if not st:
                        out.append(['wide', 'inv:AddMod', n, st, 'const', (a, N)])
                    if math.gcd(a, N) == 1:
                        out.append(['wide', 'MulMod', n, st, 'mod', (a, N)])
                        if n <= 16 or T:
                            out.append(['wide', 'MulMod', n, st, 'const', (a, N)])
    for i in range(len(refusals())):
        out.append(['refusal', i])
    out.sort(key=lambda c: c[2] if len(c) > 2 else 0)
    return out


def refusals():
    from projectq.libs import math as M
    from projectq.libs.math import _constantmath as C, _quantummath as Q

    def r(e, *n):
        return [e.allocate_qureg(k) for k in n]

    V = ValueError
    return [
        ('add_constant_modN negative', lambda e: C.add_constant_modN(e, -1, 5, *r(e, 3)), V),
        ('add_constant_modN too large', lambda e: C.add_constant_modN(e, 6, 5, *r(e, 3)), V),
        ('mul negative', lambda e: C.mul_by_constant_modN(e, -1, 5, *r(e, 3)), V),
        ('mul too large', lambda e: C.mul_by_constant_modN(e, 6, 5, *r(e, 3)), V),
        ('mul gcd', lambda e: C.mul_by_constant_modN(e, 2, 4, *r(e, 3)), V),
        ('mul zero', lambda e: C.mul_by_constant_modN(e, 0, 4, *r(e, 3)), V),
        ('add sizes', lambda e: Q.add_quantum(e, *r(e, 2, 3)), V),
        ('add carry', lambda e: Q.add_quantum(e, *r(e, 2, 2, 2)), Exception),
        ('sub sizes', lambda e: Q.subtract_quantum(e, *r(e, 2, 3)), V),
        ('invadd sizes', lambda e: Q.inverse_add_quantum_carry(e, e.allocate_qureg(2), [e.allocate_qureg(3), e.allocate_qureg(1)]), V),
        ('comp sizes', lambda e: Q.comparator(e, *r(e, 2, 3, 1)), V),
        ('comp output', lambda e: Q.comparator(e, *r(e, 2, 2, 2)), V),
        ('cond sizes', lambda e: Q.quantum_conditional_add(e, *r(e, 2, 1, 1)), V),
        ('cond ctl', lambda e: Q.quantum_conditional_add(e, *r(e, 2, 2, 2)), V),
        ('condc sizes', lambda e: Q.quantum_conditional_add_carry(e, *r(e, 2, 1, 1, 2)), V),
        ('condc ctl', lambda e: Q.quantum_conditional_add_carry(e, *r(e, 2, 2, 2, 2)), V),
        ('condc z', lambda e: Q.quantum_conditional_add_carry(e, *r(e, 2, 2, 1, 1)), V),
        ('div sizes', lambda e: Q.quantum_division(e, *r(e, 2, 3, 2)), V),
        ('div sizes 2', lambda e: Q.quantum_division(e, *r(e, 2, 2, 3)), V),
        ('idiv sizes', lambda e: Q.inverse_quantum_division(e, *r(e, 2, 3, 2)), V),
        ('mul sizes', lambda e: Q.quantum_multiplication(e, *r(e, 2, 3, 5)), V),
        ('mul product', lambda e: Q.quantum_multiplication(e, *r(e, 2, 2, 4)), V),
        ('imul sizes', lambda e: Q.inverse_quantum_multiplication(e, *r(e, 2, 3, 5)), V),
        ('imul product', lambda e: Q.inverse_quantum_multiplication(e, *r(e, 2, 2, 4)), V),
    ]


def run(case, ctx):
    if case[0] == 'refusal':
        return run_refusal(case, ctx)
    if case[0] == 'invmod':
        from projectq.libs.math._constantmath import inv_mod_N

        for a in range(1, case[1]):
            if np.gcd(a, case[1]) == 1:
                ctx.trace()
                if inv_mod_N(a, case[1]) != pow(a, -1, case[1]):
                    ctx.fail(f'inv_mod_N({a}, {case[1]})', f'{inv_mod_N(a, case[1])} is not the inverse')
        return
    if case[0] == 'invwide':
        return run_invwide(case, ctx)
    if case[0] == 'wide':
        return run_wide(case, ctx)
    name, par, n, state, mode = case
    for tgt in ('qft', 'elem'):
        if tgt == 'elem' and (name.endswith(('Q', 'Qc', 'Comp', 'Div', 'Mul')) or n > 2 or n == 2 and 'Mod' in name and state):
            continue
        if one(name, par, n, state, mode, tgt, ctx) is False:
            return


def engine(tgt):
    from projectq import MainEngine
    from projectq.cengines import AutoReplacer, DecompositionRuleSet, InstructionFilter
    import projectq.libs.math as M
    import projectq.setups.decompositions as D
    from projectq.ops import BasicMathGate, ClassicalInstructionGate, SwapGate

    def avail(e, cmd):
        if isinstance(cmd.gate, ClassicalInstructionGate):
            return True
        if tgt in ('mod', 'const') and isinstance(cmd.gate, (M.AddConstant,) + ((M.AddConstantModN,) if tgt == 'mod' else ())):
            return True
        if isinstance(cmd.gate, BasicMathGate) and not isinstance(cmd.gate, SwapGate):
            return False
        if tgt != 'elem':
            return True
        nm = type(cmd.gate).__name__
        return nm in ('XGate', 'HGate', 'R', 'SwapGate') and sum(len(r) for r in cmd.qubits) + len(cmd.control_qubits) <= 4
    rec = pq.Recorder()
    return MainEngine(rec, [AutoReplacer(DecompositionRuleSet(modules=[M, D])), InstructionFilter(avail)]), rec


def build(name, par, n, state, mode, tgt):
    """the emitted commands; (sizes, ids)"""
    from projectq.libs.math import _constantmath as C, _quantummath as Q
    from projectq.meta import Control, Dagger

    nctl = len(state)
    sizes, f = table(name, par, n, nctl, mode == 'fn')
    eng, rec = engine(tgt)
    regs = [eng.allocate_qureg(k) for k in sizes]
    ctl = eng.allocate_qureg(nctl)
    ids = [[q.id for q in r] for r in regs]
    cids = [q.id for q in ctl]
    fn = {'Add': lambda *r: C.add_constant(eng, par[0], *r), 'AddMod': lambda *r: C.add_constant_modN(eng, par[0], par[1], *r),
          'MulMod': lambda *r: C.mul_by_constant_modN(eng, par[0], par[1], *r), 'AddQ': lambda *r: Q.add_quantum(eng, *r), 'AddQc': lambda *r: Q.add_quantum(eng, *r),
          'SubQ': lambda *r: Q.subtract_quantum(eng, *r), 'Comp': lambda *r: Q.comparator(eng, *r), 'Div': lambda *r: Q.quantum_division(eng, *r),
          'Mul': lambda *r: Q.quantum_multiplication(eng, *r)}
    err = None
    try:
        if mode == 'gate':
            act = lambda: gate_of(name, par) | tuple(regs)
        elif mode == 'fn':
            act = lambda: fn[name](*[list(r) for r in regs])
        else:
            def act():
                with Dagger(eng):
                    gate_of(name, par) | tuple(regs)
        if nctl:
            with Control(eng, ctl, state):
                act()
        else:
            act()
        eng.flush()
    except Exception as e:  # noqa
        err = e
        s = pq.Recorder()
        s.is_last_engine, s.measure = True, None
        eng.next_engine = s
    live = {q.id for q in eng.active_qubits}
    return rec.cmds, ids, cids, err, live


def one(name, par, n, state, mode, tgt, ctx):
    sig = f'{name}{tuple(par)} n={n} ctl={state!r} {mode} {tgt}'
    nm = name
    if mode == 'dagger':
        nm = name[4:] if name.startswith('inv:') else 'inv:' + name
    nctl = len(state)
    sizes, f = table(nm, par, n, nctl, mode == 'fn')
    cmds, ids, cids, err, live = build(name, par, n, state, mode, tgt)
    ctx.trace()
    ctx.tr(len(cmds))
    if n > 1 or state:
        ctx.key(sig)
    if err is not None:
        key = refused(name, mode, nctl)
        ctx.outcome(f'refused {name} {mode} {nctl}')
        if not key:
            return ctx.fail(sig, f'refused: {type(err).__name__}: {str(err)[:200]}')
        return
    ctx.state(pq.show(cmds))
    ctx.outcome(f'{name} {mode} {nctl}')
    return judge(sig, cmds, ids, cids, state, f, sizes, ctx)


def words(n):
    """boundary words: what makes and stops long carry chains"""
    alt = int('01' * (n // 2 + 1), 2) & 2 ** n - 1
    w = {0, 1, 2, 3, alt, alt ^ 2 ** n - 1, 2 ** (n // 2), 2 ** (n // 2) - 1, 2 ** (n - 1) - 1, 2 ** (n - 1), 2 ** (n - 1) + 1, 2 ** n - 2, 2 ** n - 1}
    return sorted(x for x in w if x < 2 ** n)


def run_invwide(case, ctx):
    from projectq.libs.math._constantmath import inv_mod_N

    b = case[1]
    for d in range(-5, 6):
        N = 2 ** b + d
        for a in sorted({*range(1, 20), *range(N - 19, N), N // 2, N // 2 + 1, N // 3, N // 3 + 1, *words(b)}):
            if 0 < a < N and math.gcd(a, N) == 1:
                ctx.trace()
                ctx.key((a, N))
                got = inv_mod_N(a, N)
                if got != pow(a, -1, N):
                    return ctx.fail(f'inv_mod_N({a}, {N})', f'{got} is not the inverse')


def run_wide(case, ctx):
    """circuits on wide registers: every combination of boundary words, followed bit by bit (modular constants may stay as additions of constants)"""
    _, name, n, state, tgt, par = case
    sig = f'wide {name}{tuple(par)} n={n} ctl={state!r} {tgt}'
    sizes, f = table(name, list(par), n, len(state))
    cmds, ids, cids, err, live = build(name, list(par), n, state, 'gate', tgt)
    ctx.tr(len(cmds))
    ctx.outcome(f'wide {name} {tgt} {len(state)} {"refused" if err else ""}')
    if err is not None:
        if not refused(name, 'gate', len(state)):
            ctx.fail(sig, f'refused: {type(err).__name__}: {str(err)[:200]}')
        return
    dom = []
    for v in itertools.product(*[words(k) + ([par[1] - 1, par[1] // 2] if par else []) for k in sizes]):
        if f(list(v)) is not None:
            dom.append(v)
    b = name[-3:]
    if b in ('Div', 'Mul') and name.startswith('inv:') or b == 'Mul':
        dom = [tuple(table(name[4:], [], n, 0)[1]([x, 0, y]) or ()) if name.startswith('inv:') else (x, y, 0) for x in words(n) for y in words(n)]
        dom = [v for v in dom if v and f(list(v)) is not None]
    dom = sorted({(v, c) for v in dom for c in range(2 ** len(state))})
    wires = [i for r in ids for i in r] + cids
    vals = {}
    for r, reg in enumerate(ids):
        for k, w in enumerate(reg):
            vals[w] = np.array([v[r] >> k & 1 for v, _ in dom], bool)
    for k, w in enumerate(cids):
        vals[w] = np.array([c >> k & 1 for _, c in dom], bool)
    known = set()
    for c in cmds:
        g = type(c.gate).__name__
        q = [x.id for r in c.qubits for x in r]
        if g == 'FlushGate':
            continue
        if g == 'AllocateQubitGate':
            if q[0] in wires and q[0] not in known:
                known.add(q[0])
            elif q[0] in vals:
                return ctx.fail(sig, f'{q[0]} allocated twice')
            else:
                vals[q[0]] = np.zeros(len(dom), bool)
            continue
        if any(x not in vals for x in q):
            return ctx.fail(sig, 'uses a qubit that is not allocated')
        if g == 'DeallocateQubitGate':
            if q[0] not in wires and vals.pop(q[0]).any():
                return ctx.fail(sig, 'a helper qubit is not returned to zero')
            continue
        m = np.ones(len(dom), bool)
        cs = [x.id for x in c.control_qubits]
        if len(set(cs + q)) != len(cs + q):
            return ctx.fail(sig, f'{pq.str_cmd(c)} uses a qubit twice')
        for i, v in zip(cs, pq.cvals_of(c)):
            m &= vals[i] == bool(v)
        if g == 'XGate':
            vals[q[0]] = vals[q[0]] ^ m
        elif g == 'SwapGate':
            x, y = vals[q[0]], vals[q[1]]
            vals[q[0]], vals[q[1]] = np.where(m, y, x), np.where(m, x, y)
        elif g in ('AddConstant', 'AddConstantModN'):
            x = sum(vals[w].astype(object) << k for k, w in enumerate(q))
            y = x + c.gate.a
            if g == 'AddConstant':
                y = y % 2 ** len(q)
            else:
                if any(on and xx >= c.gate.N for xx, on in zip(x, m)):
                    return ctx.fail(sig, f'{c.gate} on a value that is not below its modulus')
                y = y % c.gate.N
            for k, w in enumerate(q):
                vals[w] = np.where(m, (y >> k & 1).astype(bool), vals[w])
        else:
            return ctx.fail(sig, f'{pq.str_cmd(c)} in a reversible circuit')
    if set(vals) - set(wires):
        return ctx.fail(sig, 'a helper qubit is not released')
    got = list(zip(*[sum(vals[w].astype(object) << k for k, w in enumerate(reg)) for reg in ids]))
    on = int(state[::-1], 2) if state else 0
    for (v, c), y, *cc in zip(dom, got, *[vals[w] for w in cids]):
        ctx.trace()
        want = f(list(v)) if c == on else v
        if tuple(want) != tuple(v):
            ctx.key((sig, v, c))
        if tuple(int(t) for t in y) != tuple(int(t) for t in want) or sum(int(t) << k for k, t in enumerate(cc)) != c:
            return ctx.fail(sig, f'{v} with controls {c}: got {y}, expected {tuple(want)}')


def refused(name, mode, nctl):
    """what cannot be expressed, with an error"""
    b = name.split(':')[-1]
    back = name.startswith('inv:') != (mode == 'dagger')
    if b in ('Div', 'Mul'):
        return nctl >= 1  # they use controlled additions
    if (b, back) in (('AddQ', False), ('SubQ', True)) or b == 'AddQc':
        return nctl >= 2 and mode != 'fn'  # "only a single control qubit is allowed"
    return False


def judge(sig, cmds, ids, cids, state, f, sizes, ctx):
    wires = [i for r in ids for i in r] + cids
    pos = {w: k for k, w in enumerate(wires)}
    want_ctl = [int(c) for c in state]

    def expected(x):
        v, s = [], 0
        for k in sizes:
            v.append(x >> s & 2 ** k - 1)
            s += k
        c = x >> s
        if any(c >> i & 1 != b for i, b in enumerate(want_ctl)):
            return x
        y = f(v)
        if y is None:
            return None
        r, s = 0, 0
        for k, yk in zip(sizes, y):
            assert 0 <= yk < 2 ** k
            r |= int(yk) << s
            s += k
        return r | c << s

    n = len(wires)
    dom = [(x, expected(x)) for x in range(2 ** n)]
    dom = [(x, y) for x, y in dom if y is not None and f(split(x, sizes)) is not None]
    if not dom:
        return
    xs = np.array([x for x, _ in dom])
    ys = np.array([y for _, y in dom])
    names = {type(c.gate).__name__ for c in cmds}
    if names <= {'AllocateQubitGate', 'DeallocateQubitGate', 'XGate', 'SwapGate', 'FlushGate', 'AllocateDirtyQubitGate'}:
        bits = {w: (xs >> k & 1).astype(bool) for w, k in pos.items()}
        seen = set()
        for c in cmds:
            g = type(c.gate).__name__
            if g == 'FlushGate':
                continue
            q = [x.id for r in c.qubits for x in r]
            if g == 'AllocateQubitGate':
                if q[0] in pos and q[0] not in seen:
                    seen.add(q[0])
                    continue
                if q[0] in bits:
                    return ctx.fail(sig, f'{q[0]} allocated twice')
                bits[q[0]] = np.zeros(len(xs), bool)
                continue
            if any(x not in bits for x in q):
                return ctx.fail(sig, 'uses a qubit that is not allocated')
            if g == 'DeallocateQubitGate':
                if q[0] in pos:
                    continue
                if bits.pop(q[0]).any():
                    return ctx.fail(sig, 'a helper qubit is not returned to zero')
                continue
            m = np.ones(len(xs), bool)
            cs = [x.id for x in c.control_qubits]
            if len(set(cs + q)) != len(cs + q):
                return ctx.fail(sig, f'{pq.str_cmd(c)} uses a qubit twice')
            for i, v in zip(cs, pq.cvals_of(c)):
                m &= bits[i] == bool(v)
            if g == 'XGate':
                bits[q[0]] = bits[q[0]] ^ m
            else:
                a, b = bits[q[0]], bits[q[1]]
                bits[q[0]], bits[q[1]] = np.where(m, b, a), np.where(m, a, b)
        if set(bits) - set(wires):
            return ctx.fail(sig, 'a helper qubit is not released')
        got = sum(bits[w].astype(np.int64) << k for w, k in pos.items())
        bad = np.nonzero(got != ys)[0]
        if len(bad):
            b = bad[0]
            return ctx.fail(sig, f'{len(bad)} of {len(xs)} inputs wrong, e.g. {split(xs[b], sizes)} -> {split(got[b], sizes)}, expected {split(ys[b], sizes)}')
        return
    try:
        st = pq.stream_of(cmds)
        # registers are released when the harness drops them: cut those events
        st = [o for o in st if not (o[0] == 'dealloc' and o[1] in pos)]
        got = ref.run_stream(st, inputs=wires, outputs=wires, dealloc_zero=True, cols=xs)
    except ref.StreamError as e:
        return ctx.fail(sig, str(e))
    if set(got) != {()}:
        return ctx.fail(sig, 'measurements appeared')
    M = got[()]
    if M.shape != (2 ** n, len(xs)):
        return ctx.fail(sig, 'a helper qubit is not released')
    P = np.zeros((2 ** n, len(xs)), dtype=complex)
    P[ys, np.arange(len(xs))] = 1
    if not ref.same_op(M, P, up_to_phase=True, tol=1e-6):
        a = np.abs(M)
        bad = [i for i in range(len(xs)) if abs(a[ys[i], i] - 1) > 1e-6]
        if bad:
            return ctx.fail(sig, f'{len(bad)} of {len(xs)} inputs wrong, e.g. {split(xs[bad[0]], sizes)}, expected {split(ys[bad[0]], sizes)}, got {split(int(np.argmax(a[:, bad[0]])), sizes)}')
        return ctx.fail(sig, 'relative phases between basis states')


def split(x, sizes):
    v, s = [], 0
    for k in sizes:
        v.append(int(x) >> s & 2 ** k - 1)
        s += k
    return v


def run_refusal(case, ctx):
    label, f, exc = refusals()[case[1]]
    eng, rec = engine('qft')
    got = None
    try:
        f(eng)
    except Exception as e:  # noqa
        got = e
    ctx.trace()
    ctx.tr()
    s = pq.Recorder()
    s.is_last_engine, s.measure = True, None
    eng.next_engine = s
    if not isinstance(got, exc):
        ctx.fail(f'refusal {label}', f'expected {exc.__name__}, got {got!r}')
