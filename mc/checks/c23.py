"""C23: oracles compiled from permutations and Boolean functions."""
import itertools

import numpy as np

from mc import pq, ref, sims

ID = 'C23'
RULE = ('all permutations of 2, 4 and 8 elements x synthesis commands (plus all transpositions and rotations of 16), all Boolean functions of 1-4 variables in target and phase form, x (for a subset) every assignment '
        'of the oracle to 3-4 of 4-5 qubits, every way of passing the qubits, and the contexts control, dagger, loop, compute/uncompute; Python functions; repeated use of one oracle; every list of at most 4 '
        'small integers that is no permutation and every wrong register size must be refused without a command. The recorded commands are executed by the reference on every basis state. '
        'Non-trivial: an oracle that is not the identity')
ASSUMPTIONS = ['RevKit as installed; phase oracles are exact for functions with f(0..0)=0 and up to a global sign otherwise (as documented)']
CHUNK = 1


def ops_of(cmds):
    return [c for c in cmds if type(c.gate).__name__ not in ('AllocateQubitGate', 'DeallocateQubitGate', 'FlushGate')]


def images(cmds, ids):
    """[(image, sign)] of every basis state of ids (bit k = ids[k]); None if a gate is not X/Z with controls."""
    pos = {q: k for k, q in enumerate(ids)}
    prog = []
    for c in cmds:
        nm = type(c.gate).__name__
        if nm not in ('XGate', 'ZGate') or len(c.qubits) != 1 or len(c.qubits[0]) != 1:
            return None
        cm = cv = 0
        for q, v in zip(c.control_qubits, c.control_state):
            cm |= 1 << pos[q.id]
            cv |= int(v) << pos[q.id]
        prog.append((nm == 'XGate', 1 << pos[c.qubits[0][0].id], cm, cv))
    out = []
    for b in range(1 << len(ids)):
        x, s = b, 1
        for isx, t, cm, cv in prog:
            if x & cm == cv:
                if isx:
                    x ^= t
                elif x & t:
                    s = -s
        out.append((x, s))
    return out


def matrix(cmds, ids):
    im = images(cmds, ids)
    if im is None:
        return list(ref.run_stream(pq.stream_of(cmds), list(ids), list(ids)).values())[0]
    n = len(ids)
    M = np.zeros((1 << n, 1 << n))
    for b, (x, s) in enumerate(im):
        M[x, b] = s
    return M


class Sys:
    def __init__(self, n):
        from projectq import MainEngine

        self.rec = pq.Recorder()
        self.eng = MainEngine(self.rec, [])
        self.q = [self.eng.allocate_qubit()[0] for _ in range(n)]
        self.ids = [x.id for x in self.q]
        self.rec.cmds.clear()

    def close(self):
        sims.sink(self.eng)
        for x in self.q:
            x.id = -1


def perm_matrix(p):
    M = np.zeros((len(p), len(p)))
    for i, x in enumerate(p):
        M[x, i] = 1
    return M


def ctl_matrix(f, n):
    """function of the first n qubits, target qubit n"""
    return perm_matrix([b ^ (1 << n if f >> (b & (1 << n) - 1) & 1 else 0) for b in range(2 << n)])


def phase_matrix(f, n):
    return np.diag([-1.0 if f >> b & 1 else 1.0 for b in range(1 << n)])


def embed(U, where, n):
    """U on the qubits `where` (first = least significant) of n."""
    k = len(where)
    M = np.zeros((1 << n, 1 << n), dtype=complex)
    for b in range(1 << n):
        j = sum((b >> q & 1) << i for i, q in enumerate(where))
        base = b & ~sum(1 << q for q in where)
        for x in range(1 << k):
            if U[x, j]:
                M[base | sum((x >> i & 1) << q for i, q in enumerate(where)), b] = U[x, j]
    return M


SYNTH = {}


def synths():
    import revkit

    if not SYNTH:
        def script():
            revkit.dbs()

        def script2():
            revkit.esopbs()

        def script3():
            revkit.esopps()
        SYNTH.update({'default': None, 'tbs': revkit.tbs, 'dbs': revkit.dbs, 'script': script, 'esopbs': revkit.esopbs, 'ctl-script': script2, 'phase-script': script3})
    return SYNTH


def oracle(kind, spec, syn='default'):
    from projectq.libs import revkit as R

    cls = {'perm': R.PermutationOracle, 'ctl': R.ControlFunctionOracle, 'phase': R.PhaseOracle}[kind]
    s = synths()[syn]
    return cls(spec) if s is None else cls(spec, synth=s)


def target(kind, spec, n):
    """Matrix on n qubits; phase oracles up to sign when f(0)=1."""
    return perm_matrix(spec) if kind == 'perm' else ctl_matrix(spec, n - 1) if kind == 'ctl' else phase_matrix(spec, n)


def same(kind, spec, got, want):
    if np.allclose(got, want):
        return True
    return kind == 'phase' and spec & 1 and np.allclose(got, -want)


def show(kind, spec):
    return f'{kind} {list(spec) if kind == "perm" else hex(spec)}'


def run_all(case, ctx):
    """Every function/permutation of a block."""
    _, kind, n, syn, lo, hi, qf = case
    s = Sys(n)
    try:
        specs = list(itertools.islice(itertools.permutations(range(1 << n)), lo, hi)) if kind == 'perm' and qf == 'all' else SPECIAL[n](lo, hi) if kind == 'perm' else range(lo, hi)
        for spec in specs:
            s.rec.cmds.clear()
            spec = list(spec) if kind == 'perm' else spec
            try:
                oracle(kind, spec, syn) | s.q
            except Exception as e:  # noqa
                ctx.fail(f'{kind} {syn}: {type(e).__name__}', f'{show(kind, spec)} on {n} qubits, synth={syn}: {type(e).__name__} {e}')
                return
            cmds = list(s.rec.cmds)
            ctx.tr(len(cmds))
            ctx.trace()
            want = target(kind, spec, n)
            if not np.array_equal(want, np.eye(len(want))):
                ctx.key((kind, n, repr(spec), syn))
            got = matrix(cmds, s.ids)
            ctx.state((kind, n, repr(spec)))
            if not same(kind, spec, got, want):
                ctx.fail(f'{kind} {syn}: wrong', f'{show(kind, spec)} on {n} qubits, synth={syn}: emitted {[str(c) for c in cmds][:20]}')
                return
            ctx.outcome(f'{kind} {n}')
    finally:
        s.close()


def special16(lo, hi):
    """Transpositions and rotations of 16 elements."""
    out = []
    for i, j in itertools.combinations(range(16), 2):
        p = list(range(16))
        p[i], p[j] = p[j], p[i]
        out.append(p)
    for k in range(16):
        out.append([(x + k) % 16 for x in range(16)])
        out.append([x ^ k for x in range(16)])
        out.append([(x * (2 * k + 1)) % 16 for x in range(16)])
        out.append([15 - (x + k) % 16 for x in range(16)])
    return out[lo:hi]


SPECIAL = {4: special16}
FORMS = ['list', 'tuple', 'qureg', 'regs', 'mixed', 'single+reg']


def pack(form, q):
    from projectq.types import Qureg

    q = list(q)
    return {'list': q, 'tuple': tuple(q), 'qureg': Qureg(q), 'regs': tuple(Qureg([x]) for x in q), 'mixed': (Qureg(q[:-1]), q[-1]), 'single+reg': (q[0], Qureg(q[1:]))}[form]


def run_place(case, ctx):
    """The oracle on some of n qubits, in any order and form, in a context."""
    _, kind, spec, n, where, form, context, syn = case
    from projectq.meta import Compute, Control, Dagger, Loop, Uncompute
    from projectq.ops import H

    k = len(where)
    s = Sys(n)
    try:
        o = oracle(kind, spec, syn)
        U = target(kind, spec, k)
        qs = [s.q[i] for i in where]
        arg = pack(form, qs)
        idle = [i for i in range(n) if i not in where]
        E = embed(U, where, n)
        if context == 'plain':
            o | arg
            want = E
        elif context == 'twice':
            o | arg
            o | pack(form, qs[::-1])
            want = embed(U, where[::-1], n) @ E
        elif context == 'loop':
            with Loop(s.eng, 3):
                o | arg
            want = E @ E @ E
        elif context == 'dagger':
            with Dagger(s.eng):
                o | arg
            want = E.conj().T
        elif context in ('control', 'control0'):
            c = idle[0]
            with Control(s.eng, s.q[c], ctrl_state='1' if context == 'control' else '0'):
                o | arg
            P = embed(np.diag([0, 1]) if context == 'control' else np.diag([1, 0]), [c], n)
            want = P @ E + (np.eye(1 << n) - P)
        elif context == 'compute':
            c = idle[0]
            with Compute(s.eng):
                o | arg
            H | s.q[c]
            from projectq.ops import CNOT

            CNOT | (s.q[where[0]], s.q[c])
            Uncompute(s.eng)
            A = embed(ref.H, [c], n)
            B = embed(np.array([[1, 0, 0, 0], [0, 0, 0, 1], [0, 0, 1, 0], [0, 1, 0, 0]]), [where[0], c], n)
            want = E.conj().T @ B @ A @ E
        cmds = ops_of(s.rec.cmds)
        ctx.tr(len(cmds))
        ctx.trace()
        ctx.key(case)
        ctx.state((kind, repr(spec), tuple(where), context))
        used = {q.id for c in s.rec.cmds for r in c.all_qubits for q in r}
        if not used <= set(s.ids):
            ctx.fail(f'{kind} {context}: other qubits', f'{case}: uses qubits {used - set(s.ids)}')
            return
        got = matrix(cmds, s.ids)
        if not (np.allclose(got, want) or kind == 'phase' and spec & 1 and context in ('plain', 'loop', 'dagger', 'compute', 'twice') and (np.allclose(got, -want))):
            ctx.fail(f'{kind} {context} {form}: wrong', f'{show(kind, spec)} on qubits {where} of {n}, passed as {form}, {context}: {[str(c) for c in cmds][:20]}')
        ctx.outcome(f'{kind} {context}')
    finally:
        s.close()


def run_refuse(case, ctx):
    """Must be refused, and nothing emitted."""
    _, kind, spec, n, syn = case
    s = Sys(n)
    try:
        try:
            oracle(kind, spec, syn) | s.q
        except Exception as e:  # noqa
            ctx.outcome(f'refused {type(e).__name__}')
            if s.rec.cmds:
                ctx.fail(f'{kind}: refused late', f'{kind} {spec} on {n} qubits: refused with {e!r} after {[str(c) for c in s.rec.cmds][:5]}')
        else:
            ctx.fail(f'{kind}: accepted', f'{kind} {spec} on {n} qubits (synth={syn}) is accepted: {[str(c) for c in s.rec.cmds][:10]}')
        ctx.trace()
        ctx.key(case)
        # the next oracle is not affected
        s.rec.cmds.clear()
        if n == 2:
            oracle('perm', [0, 2, 1, 3]) | s.q
            if not np.allclose(matrix(s.rec.cmds, s.ids), perm_matrix([0, 2, 1, 3])):
                ctx.fail(f'{kind}: next oracle', f'after {kind} {spec} was refused, the next oracle is wrong')
    finally:
        s.close()


# Python functions, compiled by dormouse (which knows and, or, &, |, ^, !=, <, >, if-else, assignments)
def f_and(a, b):
    return a and b


def f_or(a, b):
    return a or b


def f_xor(a, b):
    return a ^ b


def f_less(a, b):
    return a < b


def f_more(a, b):
    return a > b


def f_second(a, b):
    return b


def f_one(a):
    return a


def f_maj(a, b, c):
    return (a and b) or (a and c) or (b and c)


def f_if(a, b, c):
    return b if a else c


def f_vars(a, b, c):
    x = a & b
    y = x | c
    return y ^ b


def f_last(a, b, c, d):
    return d > (a & b & c)


def f_four(a, b, c, d):
    return (a > d) or (b and c)


PY = [f_and, f_or, f_xor, f_less, f_more, f_second, f_one, f_maj, f_if, f_vars, f_last, f_four]


def run_py(case, ctx):
    from projectq.libs import revkit as R

    _, i, kind = case
    try:
        import dormouse  # noqa
    except ImportError:
        ctx.outcome('no dormouse')
        return
    f = PY[i]
    n = f.__code__.co_argcount
    tt = sum(int(bool(f(*[bool(b >> k & 1) for k in range(n)]))) << b for b in range(1 << n))
    m = n + (kind == 'ctl')
    s = Sys(m)
    try:
        (R.ControlFunctionOracle if kind == 'ctl' else R.PhaseOracle)(f) | s.q
        ctx.trace()
        ctx.key(case)
        if not same(kind, tt, matrix(s.rec.cmds, s.ids), target(kind, tt, m)):
            ctx.fail(f'py {kind} {f.__name__}: wrong', f'{f.__name__} as {kind} oracle: truth table {tt:b}, emitted {[str(c) for c in s.rec.cmds][:20]}')
    finally:
        s.close()


def cases(tier):
    T = tier == 'thorough'
    out = []
    for n in (2, 3, 4, 5):
        N = 1 << (1 << (n - 1))
        step = min(N, 1024)
        for syn in ('default', 'ctl-script') if n < 5 else ('default',):
            out += [['all', 'ctl', n, syn, lo, min(N, lo + step), 'all'] for lo in range(0, N, step)]
    for n in (1, 2, 3, 4):
        N = 1 << (1 << n)
        step = min(N, 1024)
        for syn in ('default', 'phase-script') if n < 4 else ('default',):
            out += [['all', 'phase', n, syn, lo, min(N, lo + step), 'all'] for lo in range(0, N, step)]
    for n in (1, 2):
        for syn in ('default', 'tbs', 'dbs', 'script'):
            out.append(['all', 'perm', n, syn, 0, 24, 'all'])
    for syn in ('default', 'dbs') + (('tbs', 'script') if T else ()):
        out += [['all', 'perm', 3, syn, lo, lo + 1008, 'all'] for lo in range(0, 40320, 1008)]
    for syn in ('default', 'dbs'):
        out += [['all', 'perm', 4, syn, lo, lo + 46, 'special'] for lo in range(0, 184, 46)]
    specs = [('perm', [0, 2, 3, 1], 2), ('perm', [1, 2, 3, 4, 5, 6, 7, 0], 3), ('perm', [3, 0, 1, 2, 7, 4, 6, 5], 3), ('ctl', 0xe8, 4), ('ctl', 0x2, 3), ('ctl', 0x4b, 4), ('ctl', 0x08, 4), ('phase', 0xe8, 3),
             ('phase', 0x2, 2), ('phase', 0x4a, 3), ('phase', 0xe4, 3)]
    for kind, spec, k in specs:
        for n in (k, k + 1):
            for where in itertools.permutations(range(n), k):
                for form in FORMS:
                    if form != 'qureg' and not T and (where != tuple(range(n))[:k] and where != tuple(range(n))[::-1][:k]):
                        continue
                    for context in ('plain', 'twice', 'loop', 'dagger') + (('control', 'control0', 'compute') if n > k else ()):
                        out.append(['place', kind, spec, n, list(where), form, context, 'default'])
    # refusals
    for ln in range(1, 5):
        for p in itertools.product(range(-1, 5), repeat=ln):
            if sorted(p) != list(range(ln)):
                for n in (1, 2):
                    if T or ln in (1 << n, 1 << n - 1, 3):
                        out.append(['refuse', 'perm', list(p), n, 'default'])
    for ln in (1, 2, 3, 4, 5, 6, 8):
        for n in (1, 2, 3, 4):
            if ln != 1 << n:
                for p in (list(range(ln)), list(range(ln))[::-1]):
                    out.append(['refuse', 'perm', p, n, 'default'])
    for n in (1, 2, 3, 4):
        top = 1 << (1 << n)
        for f in (-1, -2, -top, top, top + 1, 2 * top, top * top):
            out.append(['refuse', 'phase', f, n, 'default'])
            out.append(['refuse', 'ctl', f, n + 1, 'default'])
    for f in (2, 6, 8, 14):
        out.append(['refuse', 'phase', f, 2, 'esopbs'])  # one line too many
        out.append(['refuse', 'ctl', f, 3, 'phase-script'])
    for i in range(len(PY)):
        for kind in ('ctl', 'phase'):
            out.append(['py', i, kind])
    return out


def run(case, ctx):
    globals()['run_' + case[0]](case, ctx)
