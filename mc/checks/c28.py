"""C28: programs that act on what they measured, and whole algorithms, have exactly the textbook outcome distribution and states."""
import cmath
import contextlib
import itertools
import math

import numpy as np

from mc import pq, ref, setups, sims

ID = 'C28'
RULE = ('(word) every program of up to a number of steps over gates, joint and single measurements, corrections that depend on the last result, and replacing a measured qubit by a new one; '
        '(algo) every instance of the listed algorithms and protocols up to a size. Each is run once per sequence of measurement outcomes of non-zero probability: an engine in front of the '
        'backend forces the outcome, so that all histories are executed, and every history must occur with the reference probability and leave the reference state. '
        'Non-trivial: a program that branches and uses a result')
ASSUMPTIONS = ['an outcome is forced by the simulator\'s own collapse_wavefunction, whose correctness is decided by C08 and C09']
CHUNK = 4
EPS = 1e-9
TOL = 1e-6

# ------------------------------------------------------------------ gates of the programs: name -> (projectq gate, textbook matrix)


def _int(v, n):
    return v & (2 ** n - 1)


def gate(name, args):
    from projectq import ops as O
    from projectq.libs import math as M

    simple = {'H': O.H, 'X': O.X, 'Y': O.Y, 'Z': O.Z, 'S': O.S, 'T': O.T, 'Sdag': O.Sdag, 'Tdag': O.Tdag, 'Swap': O.Swap, 'SqrtX': O.SqrtX}
    if name in simple:
        return simple[name]
    if name in ('Rx', 'Ry', 'Rz', 'R', 'Ph', 'Rxx', 'Rzz', 'Ryy'):
        return getattr(O, name)(*args)
    if name == 'QFT':
        return O.QFT
    if name == 'QFTd':
        return O.get_inverse(O.QFT)
    if name == 'add':
        return M.AddConstant(*args)
    if name == 'addN':
        return M.AddConstantModN(*args)
    if name == 'mulN':
        return M.MultiplyByConstantModN(*args)
    if name == 'AddQ':
        return M.AddQuantum
    if name == 'U':
        return O.MatrixGate(np.array(args[0]))
    if name == 'TE':
        return O.TimeEvolution(args[0], O.QubitOperator(args[1]))
    raise AssertionError(name)


FIX = {'H': ref.H, 'X': ref.X, 'Y': ref.Y, 'Z': ref.Z, 'S': ref.S, 'T': ref.T, 'Sdag': ref.S.conj(), 'Tdag': ref.T.conj(), 'Swap': ref.SWAP, 'SqrtX': ref.SQX}


def matrix(name, args, sizes):
    if name in FIX:
        return FIX[name]
    if name in ref.ANGLE:
        return ref.ANGLE[name](*args)
    n = sum(sizes)
    if name == 'QFT':
        return ref.qft(n)
    if name == 'QFTd':
        return ref.qft(n).conj().T
    if name == 'add':
        return ref.perm_matrix(lambda v: [(v[0] + args[0]) % 2 ** n], sizes)
    if name == 'addN':
        a, N = args
        return ref.perm_matrix(lambda v: [(v[0] + a) % N if v[0] < N else v[0]], sizes)
    if name == 'mulN':
        a, N = args
        return ref.perm_matrix(lambda v: [(v[0] * a) % N if v[0] < N else v[0]], sizes)
    if name == 'AddQ':
        return ref.perm_matrix(lambda v: [v[0], (v[0] + v[1]) % 2 ** sizes[1]], sizes)
    if name == 'U':
        return np.array(args[0])
    if name == 'TE':
        from projectq.ops import QubitOperator

        return ref.expm_h(ref.pauli_matrix(QubitOperator(args[1]).terms, n), args[0])
    raise AssertionError(name)


# ------------------------------------------------------------------ the two machines a program runs on


class Textbook:
    """Runs a program on plain matrices; the outcome sequence follows `prefix`, then the smallest possible outcome."""

    def __init__(self, prefix):
        self.prefix, self.w, self.obs, self.out = prefix, 1.0, [], []
        self.st = ref.State()
        self.n = 0
        self.frames = []
        self.saved = []
        self.alts = []
        self.live = []

    def alloc(self, n=1):
        new = list(range(self.n, self.n + n))
        self.n += n
        for q in new:
            self.st.alloc(q)
        self.live += new
        return new

    def _do(self, op):
        if self.frames:
            self.frames[-1].append(op)
        else:
            M, t, c, v = op
            self.st.apply(M, t, c, v)

    def g(self, name, *regs, args=(), ctl=()):
        regs = [r if isinstance(r, list) else [r] for r in regs]
        self._do((matrix(name, args, [len(r) for r in regs]), [q for r in regs for q in r], list(ctl), [1] * len(ctl)))

    @contextlib.contextmanager
    def _frame(self, f):
        self.frames.append([])
        yield
        for op in f(self.frames.pop()):
            self._do(op)

    def control(self, qs, bits=None):
        b = bits or [1] * len(qs)
        return self._frame(lambda ops: [(M, t, c + list(qs), v + list(b)) for M, t, c, v in ops])

    def dagger(self):
        return self._frame(lambda ops: [(M.conj().T, t, c, v) for M, t, c, v in ops[::-1]])

    def loop(self, n):
        return self._frame(lambda ops: ops * n)

    def compute(self):
        def f(ops):
            self.saved.append(list(ops))
            return ops
        return self._frame(f)

    def uncompute(self):
        for M, t, c, v in self.saved.pop()[::-1]:
            self._do((M.conj().T, t, c, v))

    def m(self, *qs, joint=True):
        r = []
        for q in qs:
            p1 = self.st.prob(q, 1)
            poss = [v for v, p in ((0, 1 - p1), (1, p1)) if p > EPS]
            k = len(self.obs)
            v = self.prefix[k] if k < len(self.prefix) else poss[0]
            if k >= len(self.prefix):
                self.alts += [tuple(self.obs) + (x,) for x in poss[1:]]
            self.obs.append(v)
            self.w *= p1 if v else 1 - p1
            self.st.project(q, v)
            self.st.psi = self.st.psi / self.st.norm()
            r.append(v)
        return r if len(r) != 1 else r[0]

    def free(self, *qs):
        for q in qs:
            p1 = self.st.prob(q, 1)
            assert p1 < EPS or p1 > 1 - EPS, 'the program releases a qubit in superposition'
            self.st.drop(q, int(p1 > .5))
            self.live.remove(q)

    def flush(self):
        pass

    def prep(self, q, amp):
        """StatePreparation on a register in |0...0>: any unitary with this first column."""
        n = len(q)
        a = np.array(amp, dtype=complex)
        A = np.eye(2 ** n, dtype=complex)
        A[:, 0] = a
        if abs(a[0]) < 1e-9:
            k = int(np.argmax(np.abs(a)))
            A[:, k] = np.eye(2 ** n)[:, 0]
        Q, _ = np.linalg.qr(A)
        Q[:, 0] *= np.vdot(Q[:, 0], a)
        self._do((Q, list(q), [], []))

    def say(self, x):
        self.out.append(x)

    def result(self):
        return self.st.vector(self.live)


RAW = ('sim', 'fuse', 'py', 'opt1', 'opt5', 'rc', 'prn', 'man', 'class')


class Machine:
    """Runs the same program on ProjectQ."""

    def __init__(self, conf, prefix):
        self.obs, self.out = [], []
        self.ch, self.sim, self.eng = build(conf, prefix)
        self.rules = conf not in RAW
        self.h = {}
        self.n = 0
        self.live = []
        self.saved = 0

    @property
    def w(self):
        return self.ch.w

    @property
    def alts(self):
        return self.ch.alts

    def alloc(self, n=1):
        new = list(range(self.n, self.n + n))
        self.n += n
        r = self.eng.allocate_qureg(n) if n > 1 else self.eng.allocate_qubit()
        for k, q in zip(new, r):
            self.h[k] = q
        self.live += new
        return new

    def reg(self, ks):
        from projectq.types import Qureg

        return Qureg([self.h[k] for k in ks])

    def g(self, name, *regs, args=(), ctl=()):
        from projectq.meta import Control

        r = tuple(self.reg(x) if isinstance(x, list) else self.h[x] for x in regs)
        G = gate(name, args)
        if ctl:
            with Control(self.eng, self.reg(ctl)):
                G | (r if len(r) > 1 else r[0])
        else:
            G | (r if len(r) > 1 else r[0])

    @contextlib.contextmanager
    def control(self, qs, bits=None):
        from projectq import ops as O
        from projectq.meta import Control

        if bits is None or all(bits):
            with Control(self.eng, self.reg(qs)):
                yield
        elif self.rules:
            with Control(self.eng, self.reg(qs), ctrl_state=''.join(map(str, bits))):
                yield
        else:  # a simulator without compilers knows no negative controls
            for q, v in zip(qs, bits):
                if not v:
                    O.X | self.h[q]
            with Control(self.eng, self.reg(qs)):
                yield
            for q, v in zip(qs, bits):
                if not v:
                    O.X | self.h[q]

    def dagger(self):
        from projectq.meta import Dagger

        return Dagger(self.eng)

    def loop(self, n):
        from projectq.meta import Loop

        return Loop(self.eng, n)

    def compute(self):
        from projectq.meta import Compute

        return Compute(self.eng)

    def uncompute(self):
        from projectq.meta import Uncompute

        Uncompute(self.eng)

    def m(self, *qs, joint=True):
        from projectq.ops import All, Measure

        if len(qs) > 1 and not joint:
            for q in qs:
                Measure | self.h[q]
        elif len(qs) > 1:
            All(Measure) | self.reg(qs)
        else:
            Measure | self.h[qs[0]]
        self.eng.flush()
        r = [int(self.h[q]) for q in qs]
        self.obs += r
        return r if len(r) != 1 else r[0]

    def free(self, *qs):
        for q in qs:
            self.eng.deallocate_qubit(self.h.pop(q))
            self.live.remove(q)

    def flush(self):
        self.eng.flush()

    def prep(self, q, amp):
        from projectq.ops import StatePreparation

        StatePreparation(list(amp)) | self.reg(q)

    def say(self, x):
        self.out.append(x)

    def result(self):
        self.eng.flush()
        m = self.eng.mapper.current_mapping if self.eng.mapper is not None else None
        ids = [self.h[k].id for k in self.live]
        if m is not None:
            ids = [m[i] for i in ids]
        if self.sim is None:
            b = [self.ch.backend.read_bit(self.h[k]) for k in self.live]
            v = np.zeros(2 ** len(ids), dtype=complex)
            v[sum(x << i for i, x in enumerate(b))] = 1
            return v
        return sims.vector(self.sim, ids)

    def close(self):
        sims.sink(self.eng)
        for q in list(self.eng.active_qubits):
            q.id = -1


_CH = None


def chooser():
    """The engine in front of the simulator that decides every measurement: the prefix first, then the smallest possible outcome."""
    global _CH
    if _CH is None:
        from projectq.cengines import BasicEngine
        from projectq.ops import MeasureGate

        class Chooser(BasicEngine):
            def receive(self, command_list):
                for c in command_list:
                    if isinstance(c.gate, MeasureGate):
                        for r in c.qubits:
                            for q in r:
                                self.choose(q)
                    self.send([c])

            def choose(self, q):
                me = self.main_engine
                mapper, me.mapper = me.mapper, None
                try:
                    p1 = self.backend.get_probability('1', [q])
                    poss = [v for v, p in ((0, 1 - p1), (1, p1)) if p > EPS]
                    k = len(self.done)
                    v = self.prefix[k] if k < len(self.prefix) else poss[0]
                    if k >= len(self.prefix):
                        self.alts += [tuple(self.done) + (x,) for x in poss[1:]]
                    self.done.append(v)
                    self.w *= p1 if v else 1 - p1
                    self.backend.collapse_wavefunction([q], [v])
                finally:
                    me.mapper = mapper

        _CH = Chooser
    return _CH


def build(conf, prefix):
    from projectq import MainEngine
    from projectq import cengines as E
    from projectq.backends import ClassicalSimulator, CommandPrinter, ResourceCounter

    ch = chooser()()
    ch.prefix, ch.done, ch.alts, ch.w = prefix, [], [], 1.0
    if conf == 'class':
        sim = None
        ch.backend = ClassicalSimulator()
        return ch, None, MainEngine(ch.backend, [])
    kind, fusion, chain = 'cpp', False, []
    if conf == 'py':
        kind = 'py'
    elif conf == 'fuse':
        fusion = True
    elif conf == 'sim':
        pass
    elif conf.startswith('opt'):
        chain = [E.LocalOptimizer(int(conf[3:]))]
    elif conf == 'rc':
        chain = [E.TagRemover(), ResourceCounter(), E.LocalOptimizer(3), ResourceCounter()]
    elif conf == 'prn':
        chain = [CommandPrinter(accept_input=False), E.TagRemover()]
    elif conf == 'man':
        chain = [E.ManualMapper(lambda i: 7 - i if i < 7 else i)]
    elif conf == 'linear-5c':
        from projectq.setups import linear

        chain = linear.get_engine_list(num_qubits=5, cyclic=True)
    elif conf == 'grid-23':
        from projectq.setups import grid

        chain = grid.get_engine_list(num_rows=2, num_columns=3)
    else:
        chain = setups._table()[conf]['make']()
        fusion = conf == 'default'
    sim = sims.make(kind, fusion)
    ch.backend = sim
    with sims.Quiet():
        return ch, sim, MainEngine(sim, chain + [ch])


# ------------------------------------------------------------------ running all histories


def histories(make, prog, close, ctx=None, cap=4096):
    """{outcomes as the program saw them: (probability, state, notes)} over all choices."""
    res = {}
    todo = [()]
    while todo:
        pre = todo.pop()
        mach = make(pre)
        try:
            prog(mach)
            r = mach.result()
            if close and list(mach.ch.done)[:len(pre)] != list(pre):
                raise AssertionError('outcome choice not reproducible')
            key = tuple(mach.obs)
            res.setdefault(key, []).append((mach.w, r, tuple(mach.out)))
            todo += mach.alts
            if ctx is not None:
                ctx.tr(len(key) + 1)
        finally:
            if close:
                mach.close()
        assert len(res) <= cap, 'too many histories'
    return res


def differ(want, got):
    if set(want) != set(got):
        a, b = sorted(set(want) - set(got))[:3], sorted(set(got) - set(want))[:3]
        return f'histories missing {a}, additional {b}'
    for k in want:
        if len(got[k]) != 1:
            return f'outcome {k} reached by {len(got[k])} different histories'
        (w, s, o), (w2, s2, o2) = want[k][0], got[k][0]
        if abs(w - w2) > TOL:
            return f'outcome {k} has probability {w2:.6f} instead of {w:.6f}'
        if o != o2:
            return f'outcome {k} gives the answer {o2} instead of {o}'
        if s.shape != s2.shape or abs(abs(np.vdot(s, s2)) - 1) > TOL:
            return f'outcome {k}: final state differs (overlap {abs(np.vdot(s, s2)):.6f})' if s.shape == s2.shape else f'outcome {k}: size'
    return None


_CACHE = {}


def check(ctx, sig, prog, conf):
    t = _CACHE.get(sig)
    if t is None:
        t = histories(Textbook, prog, False)
        if len(_CACHE) > 500:
            _CACHE.clear()
        _CACHE[sig] = t
    ctx.trace()
    try:
        g = histories(lambda pre: Machine(conf, pre), prog, True, ctx)
    except Exception as e:  # noqa
        if isinstance(e, AssertionError):
            raise
        ctx.fail(f'{sig} on {conf}', f'{type(e).__name__}: {str(e)[:300]}')
        return
    for k in g:
        ctx.state((sig, conf, k))
    if len(t) > 1:
        ctx.key((sig, conf))
    w = differ(t, g)
    ctx.outcome(f'{min(len(t), 9)} histories')
    if w:
        ctx.fail(f'{sig} on {conf}', w)


# ------------------------------------------------------------------ words

STEPS = ['Ha', 'Hb', 'Ta', 'CXab', 'CXba', 'CRab', 'Ma', 'Mb', 'Mab', 'Mba2', '?Xb', '?Za', '?Ha', 'Na', 'Nb', 'Wab', 'Fl']
STEPS3 = STEPS + ['CXbc', 'CXca', 'Mc', 'Macb', '?Xc', 'CCX', 'Nc', 'Wbc']
CSTEPS = ['Xa', 'Xb', 'CXab', 'CXba', 'CXbc', 'CXca', 'CCX', 'Ma', 'Mb', 'Mab', '?Xb', '?Xa', 'Na', 'Nb', 'Fl', 'addbc']
USES = ('?', 'N', 'M')


def word(w, n, classical=False):
    def prog(p):
        q = dict(zip('abc', p.alloc(n)))
        if not classical:
            p.g('Ry', q['a'], args=(0.9,))
            p.g('Ry', q['b'], args=(1.7,))
            p.g('Rz', q['b'], args=(0.6,))
            if n > 2:
                p.g('Rx', q['c'], args=(2.2,))
        last = 0
        for s in w:
            if s == 'Fl':
                p.flush()
            elif s == 'Mba2':
                r = p.m(q['b'], q['a'], joint=False)
                last = r[0]
            elif s == 'CCX':
                p.g('X', q['c'], ctl=[q['a'], q['b']])
            elif s == 'addbc':
                p.g('add', [q['b'], q['c']], args=(1,))
            elif s[:2] == 'CX':
                p.g('X', q[s[3]], ctl=[q[s[2]]])
            elif s[:2] == 'CR':
                p.g('Rz', q[s[3]], args=(0.7,), ctl=[q[s[2]]])
            elif s[0] == 'M':
                r = p.m(*[q[x] for x in s[1:]])
                last = r if isinstance(r, int) else sum(r) % 2
            elif s[0] == '?':
                if last:
                    p.g(s[1], q[s[2]])
            elif s[0] == 'N':
                last = p.m(q[s[1]])
                p.free(q[s[1]])
                q[s[1]] = p.alloc()[0]
            elif s[0] == 'W':
                p.g('Swap', q[s[1]], q[s[2]])
            else:
                p.g(s[0], q[s[1]])
    return prog


def words(alpha, depth):
    """Words that measure somewhere and go on afterwards."""
    for d in range(2, depth + 1):
        for w in itertools.product(alpha, repeat=d):
            if any(s[0] in 'MN' for s in w[:-1]):
                yield w


def run_words(case, ctx):
    _, conf, n, depth, first, classical = case
    alpha = CSTEPS if classical else (STEPS3 if n > 2 else STEPS)
    for w in words(alpha, depth):
        if w[0] == first:
            check(ctx, f'{n} qubits {" ".join(w)}', word(w, n, classical), conf)


# ------------------------------------------------------------------ algorithms


def psi0(p, q, k=1):
    p.g('Ry', q, args=(0.7 * k,))
    p.g('Rz', q, args=(0.4 + k,))


def teleport(late, via):
    def prog(p):
        a = p.alloc()[0]
        psi0(p, a)
        b, c = p.alloc(2)
        p.g('H', b)
        p.g('X', c, ctl=[b])
        if via == 'compute':
            with p.compute():
                p.g('X', b, ctl=[a])
                p.g('H', a)
        else:
            p.g('X', b, ctl=[a])
            p.g('H', a)
        if late:
            x, z = p.m(b, a, joint=False)
        else:
            x = p.m(b)
            p.free(b)
            z = p.m(a)
        if x:
            p.g('X', c)
        if z:
            p.g('Z', c)
        if not late:
            p.free(a)
    return prog


def chain(n):
    """Teleportation from qubit to qubit, releasing and reusing on the way."""
    def prog(p):
        a = p.alloc()[0]
        psi0(p, a)
        for _ in range(n):
            b, c = p.alloc(2)
            p.g('H', b)
            p.g('X', c, ctl=[b])
            p.g('X', b, ctl=[a])
            p.g('H', a)
            x, z = p.m(b, a)
            if x:
                p.g('X', c)
            if z:
                p.g('Z', c)
            p.free(a, b)
            a = c
    return prog


def dense(bits):
    def prog(p):
        a, b = p.alloc(2)
        p.g('H', a)
        p.g('X', b, ctl=[a])
        if bits & 1:
            p.g('X', a)
        if bits & 2:
            p.g('Z', a)
        p.g('X', b, ctl=[a])
        p.g('H', a)
        r = p.m(a, b)
        p.say(r[0] * 2 + r[1])
    return prog


def swapping():
    def prog(p):
        a, b = p.alloc(2)
        c, d = p.alloc(2)
        for x, y in ((a, b), (c, d)):
            p.g('H', x)
            p.g('X', y, ctl=[x])
        p.g('X', c, ctl=[b])
        p.g('H', b)
        x, z = p.m(c, b, joint=False)
        p.free(b, c)
        if x:
            p.g('X', d)
        if z:
            p.g('Z', a)
    return prog


def flipcode(where, what, phase, reset):
    def prog(p):
        d = p.alloc(3)
        psi0(p, d[0])
        p.g('X', d[1], ctl=[d[0]])
        p.g('X', d[2], ctl=[d[0]])
        if phase:
            for x in d:
                p.g('H', x)
        if where is not None:
            p.g(what, d[where], args=(1.1,) if what[0] == 'R' else ())
        if phase:
            for x in d:
                p.g('H', x)
        syn = []
        if reset:
            a = p.alloc()[0]
        for x, y in ((0, 1), (1, 2)):
            if not reset:
                a = p.alloc()[0]
            p.g('X', a, ctl=[d[x]])
            p.g('X', a, ctl=[d[y]])
            v = p.m(a)
            syn.append(v)
            if reset:
                if v:
                    p.g('X', a)
            else:
                p.free(a)
        if reset:
            p.free(a)
        fix = {(1, 0): 0, (1, 1): 1, (0, 1): 2}.get(tuple(syn))
        if fix is not None:
            p.g('X', d[fix])
        p.g('X', d[2], ctl=[d[0]])
        p.g('X', d[1], ctl=[d[0]])
    return prog


def magic():
    """T through a prepared T state, measurement and a conditional S."""
    def prog(p):
        q, a = p.alloc(2)
        psi0(p, q)
        p.g('H', a)
        p.g('T', a)
        p.g('X', a, ctl=[q])
        if p.m(a):
            p.g('S', q)
        p.free(a)
    return prog


def rus(tries):
    """Repeat until success: at most so many attempts."""
    def prog(p):
        q = p.alloc()[0]
        psi0(p, q)
        for k in range(tries):
            a = p.alloc()[0]
            p.g('H', a)
            p.g('Rz', q, args=(math.pi / 2,), ctl=[a])
            with p.control([a], [0]):
                p.g('X', q)
            p.g('H', a)
            v = p.m(a)
            p.free(a)
            if not v:
                break
            p.g('X', q)
        p.say(k)
    return prog


def iterative(bits, num, powers):
    """Phase estimation with one recycled qubit; phase num / 2**(bits + extra)."""
    def prog(p):
        u = p.alloc()[0]
        p.g('X', u)
        phi = 2 * math.pi * num / 2 ** powers
        got = []
        for k in range(bits):
            a = p.alloc()[0]
            p.g('H', a)
            with p.control([a]):
                with p.loop(2 ** (bits - 1 - k)):
                    p.g('R', u, args=(phi,))
            for j, v in enumerate(got):
                if v:
                    p.g('R', a, args=(-math.pi / 2 ** (k - j),))
            p.g('H', a)
            got.append(p.m(a))
            p.free(a)
        p.say(sum(v << i for i, v in enumerate(got)))
    return prog


def order(a, N, bits):
    """Shor's algorithm with one control qubit, as in the literature (and in examples/shor.py)."""
    def prog(p):
        n = N.bit_length()
        x = p.alloc(n)
        p.g('X', x[0])
        got = []
        c = p.alloc()[0]
        for k in range(bits):
            p.g('H', c)
            with p.control([c]):
                p.g('mulN', x, args=(pow(a, 2 ** (bits - 1 - k), N), N))
            for j in range(k):
                if got[j]:
                    p.g('R', c, args=(-math.pi / 2 ** (k - j),))
            p.g('H', c)
            v = p.m(c)
            got.append(v)
            if v:
                p.g('X', c)
        p.free(c)
        p.say(sum(v << i for i, v in enumerate(got)))
    return prog


def qpe(n, num, den):
    def prog(p):
        c, u = p.alloc(n), p.alloc()[0]
        p.g('X', u)
        for x in c:
            p.g('H', x)
        for k in range(n):
            p.g('R', u, args=(2 * math.pi * num / den * 2 ** k,), ctl=[c[k]])
        with p.dagger():
            p.g('QFT', c[::-1])
        for k in range(0):
            pass
        r = p.m(*c, joint=False) if n > 1 else [p.m(c[0])]
        p.say(tuple(r))
    return prog


def grover(n, marked, its, style):
    def prog(p):
        x = p.alloc(n)
        a = p.alloc()[0]
        for q in x:
            p.g('H', q)
        p.g('X', a)
        p.g('H', a)

        def body():
            if style == 'state':
                with p.control(x, [(marked >> i) & 1 for i in range(n)]):
                    p.g('X', a)
            else:
                with p.compute():
                    for i in range(n):
                        if not (marked >> i) & 1:
                            p.g('X', x[i])
                with p.control(x):
                    p.g('X', a)
                p.uncompute()
            with p.compute():
                for q in x:
                    p.g('H', q)
                    p.g('X', q)
            with p.control(x[:-1]):
                p.g('Z', x[-1])
            p.uncompute()
        if style == 'loop':
            with p.loop(its):
                body()
        else:
            for _ in range(its):
                body()
        p.g('H', a)
        p.g('X', a)
        p.free(a)
        r = p.m(*x)
        p.say(tuple(r))
    return prog


def bv(n, s, one_by_one):
    def prog(p):
        a = p.alloc()[0]
        p.g('X', a)
        p.g('H', a)
        got = []
        if one_by_one:
            for i in range(n):
                q = p.alloc()[0]
                p.g('H', q)
                if (s >> i) & 1:
                    p.g('X', a, ctl=[q])
                p.g('H', q)
                got.append(p.m(q))
                p.free(q)
        else:
            x = p.alloc(n)
            with p.compute():
                for q in x:
                    p.g('H', q)
            for i in range(n):
                if (s >> i) & 1:
                    p.g('X', a, ctl=[x[i]])
            p.uncompute()
            got = p.m(*x) if n > 1 else [p.m(x[0])]
        p.say(sum(v << i for i, v in enumerate(got)))
    return prog


def deutsch(n, table):
    def prog(p):
        x, a = p.alloc(n), p.alloc()[0]
        p.g('X', a)
        for q in x + [a]:
            p.g('H', q)
        for k in range(2 ** n):
            if (table >> k) & 1:
                with p.control(x, [(k >> i) & 1 for i in range(n)]):
                    p.g('X', a)
        for q in x:
            p.g('H', q)
        r = p.m(*x) if n > 1 else [p.m(x[0])]
        p.say(sum(r) == 0)
    return prog


def simon(n, s):
    def prog(p):
        x, y = p.alloc(n), p.alloc(n)
        for q in x:
            p.g('H', q)
        for i in range(n):
            p.g('X', y[i], ctl=[x[i]])
        if s:
            j = (s & -s).bit_length() - 1
            for i in range(n):
                if (s >> i) & 1:
                    p.g('X', y[i], ctl=[x[j]])
        p.m(*y, joint=False)
        for q in x:
            p.g('H', q)
        r = p.m(*x)
        p.say(sum((v & (s >> i)) & 1 for i, v in enumerate(r)) % 2)
    return prog


def ghz(n, measure_first):
    def prog(p):
        q = p.alloc(n)
        p.g('H', q[0])
        for i in range(n - 1):
            p.g('X', q[i + 1], ctl=[q[i]])
        v = p.m(q[measure_first])
        r = p.m(*[q[i] for i in range(n) if i != measure_first])
        p.say((v, tuple(r) if isinstance(r, list) else r))
    return prog


def walk(steps):
    """A quantum walk on a ring of four with a coin that is measured half way."""
    def prog(p):
        pos, c = p.alloc(2), p.alloc()[0]
        p.g('Ry', c, args=(0.8,))
        for k in range(steps):
            p.g('H', c)
            with p.control([c]):
                p.g('add', pos, args=(1,))
            with p.control([c], [0]):
                p.g('add', pos, args=(3,))
            if k == steps // 2 and p.m(c):
                p.g('X', c)
        p.say(tuple(p.m(*pos)))
    return prog


def trotter(n, steps, which):
    def prog(p):
        q = p.alloc(n)
        for i, x in enumerate(q):
            p.g('Ry', x, args=(0.3 + i,))
        with p.loop(steps):
            if which == 'TE':
                p.g('TE', q, args=(0.4, 'Z0 Z1'))
                p.g('TE', q, args=(0.3, 'X0 Y1'))
            else:
                p.g('Rzz', q[0], q[1], args=(0.8,))
                p.g('Rxx', q[1], q[0], args=(0.6,))
        v = p.m(q[0])
        if v:
            p.g('H', q[1])
        p.say(v)
    return prog


def prepare(k):
    amps = [[0.6, 0.8j], [0.5, -0.5, 0.5j, 0.5], [0, 0, 0.6, -0.8], [0.1, 0.7, -0.1, 0.7]][k]
    a = np.array(amps, dtype=complex)
    a = a / np.linalg.norm(a)

    def prog(p):
        n = int(math.log2(len(a)))
        q = p.alloc(n)
        p.prep(q, [complex(x) for x in a])
        v = p.m(q[0])
        if v and n > 1:
            p.g('H', q[1])
        p.free(q[0])
        if n == 1:
            q = p.alloc(1)
            p.prep(q, [complex(x) for x in a])
    return prog


def adder(n, a, b):
    """Draper style addition: the summand is read from measured qubits."""
    def prog(p):
        src, dst = p.alloc(n), p.alloc(n)
        for i in range(n):
            if (a >> i) & 1:
                p.g('H', src[i])
            if (b >> i) & 1:
                p.g('X', dst[i])
        p.g('AddQ', src, dst)
        r = p.m(*src, joint=False)
        with p.dagger():
            p.g('add', dst, args=(sum(v << i for i, v in enumerate(r)),))
        p.say(tuple(p.m(*dst)))
    return prog


def cluster(angles):
    """One-way computation on a linear cluster: measurement angles follow earlier results."""
    def prog(p):
        q = p.alloc()[0]
        psi0(p, q)
        x = z = 0
        for t in angles:
            nq = p.alloc()[0]
            p.g('H', nq)
            p.g('Z', nq, ctl=[q])
            p.g('Rz', q, args=(-t if x else t,))
            p.g('H', q)
            s = p.m(q)
            p.free(q)
            x, z = s ^ z, x
            q = nq
        if x:
            p.g('X', q)
        if z:
            p.g('Z', q)
    return prog


ALGOS = {}


def _algos(tier):
    T = tier != 'quick'
    out = {}
    for late in (0, 1):
        out[f'teleport {late}'] = teleport(late, 'plain')
    for n in range(1, 4 if T else 3):
        out[f'teleport chain {n}'] = chain(n)
    for b in range(4):
        out[f'superdense {b}'] = dense(b)
    out['entanglement swapping'] = swapping()
    for ph in (0, 1):
        for rs in (0, 1):
            for wh in (None, 0, 1, 2):
                for g in (['X'] if wh is None else (['Z', 'Rz'] if ph else ['X', 'Rx'])):
                    out[f'{"phase" if ph else "bit"} code {wh} {g} {rs}'] = flipcode(wh, g, ph, rs)
    out['magic state'] = magic()
    for t in range(1, 5 if T else 4):
        out[f'repeat until success {t}'] = rus(t)
    for bits in (2, 3):
        for num in range(0, 8 if T else 8, 1 if T else 3):
            out[f'iterative phase {bits} {num}'] = iterative(bits, num, 3)
    for a in ((2, 4, 7, 8, 11, 13, 14) if T else (2, 7, 4)):
        out[f'order of {a} mod 15'] = order(a, 15, 3)
    for n in (2, 3):
        for num, den in ((1, 2), (3, 4), (1, 3), (5, 8)):
            out[f'phase estimation {n} {num}/{den}'] = qpe(n, num, den)
    for n in (2, 3):
        for mk in range(2 ** n):
            for st in ('compute', 'state', 'loop'):
                if T or n == 2 or (mk + len(st)) % 4 == 0:
                    out[f'grover {n} {mk} {st}'] = grover(n, mk, 1 if n == 2 else 2, st)
    for n in (1, 2, 3):
        for s in range(2 ** n):
            for o in (0, 1):
                out[f'bernstein-vazirani {n} {s} {o}'] = bv(n, s, o)
    for n in (1, 2):
        for t in range(2 ** 2 ** n):
            out[f'deutsch-jozsa {n} {t}'] = deutsch(n, t)
    for s in range(4):
        out[f'simon 2 {s}'] = simon(2, s)
    for n in (2, 3, 4):
        for k in range(n):
            out[f'ghz {n} {k}'] = ghz(n, k)
    for s in (1, 2, 3):
        out[f'walk {s}'] = walk(s)
    for s in (1, 2, 3):
        for w in ('TE', 'rot'):
            out[f'trotter {s} {w}'] = trotter(2, s, w)
    for k in range(4):
        out[f'prepare {k}'] = prepare(k)
    for a in range(4):
        for b in range(4):
            if T or (a + b) % 2:
                out[f'adder {a} {b}'] = adder(2, a, b)
    for k in (1, 2, 3):
        out[f'cluster {k}'] = cluster([0.5, 1.3, -0.7][:k])
    return out


def algos(tier):
    if tier not in ALGOS:
        ALGOS[tier] = _algos(tier)
    return ALGOS[tier]


MATHLESS = ('linear-5', 'linear-5c', 'grid-23', 'aqt', 'ibm-sim')  # too few qubits for modular arithmetic
NORZZ = ('rgs-default', 'rgs-rzh', 'trapped_ion', 'linear-5', 'linear-5c', 'grid-23', 'aqt', 'aws-sv1', 'ibm-sim')  # no rule for Rzz/Rxx


def supported(conf, name, tier):
    if name.startswith(('phase estimation', 'prepare')) and conf in RAW:
        return False  # needs decomposition rules
    if name == 'prepare 0' and conf in ('rgs-default', 'linear-5', 'linear-5c', 'grid-23'):
        return False  # a preparation of one qubit counts as 'any' one-qubit gate
    if name.startswith('order') and (conf in MATHLESS or (tier == 'quick' and conf not in RAW + ('default',))):
        return False
    if name.startswith('trotter') and name.endswith('rot') and conf in NORZZ:
        return False
    return True


CONFS = ['sim', 'fuse', 'py', 'default', 'rgs-default', 'rgs-rzh', 'trapped_ion', 'opt1', 'opt5', 'rc', 'prn', 'man', 'linear-5', 'linear-5c', 'grid-23', 'ionq', 'aqt', 'aws-sv1', 'ibm-sim']


def cases(tier):
    T = tier != 'quick'
    out = []
    for c in CONFS:
        for a in algos(tier):
            if not supported(c, a, tier):
                continue
            out.append(['algo', c, a, tier])
    for c in CONFS:
        for first in STEPS:
            out.append(['word', c, 2, (4 if c in ('sim', 'fuse', 'opt5') else 3) if T else 3, first, 0])
    for first in STEPS3:
        out += [['word', c, 3, 3 if T or c == 'sim' else 2, first, 0] for c in (CONFS if T else ('sim', 'default', 'linear-5', 'grid-23', 'aqt'))]
    for first in CSTEPS:
        out.append(['word', 'class', 3, 4 if T else 3, first, 1])
    return out


def run(case, ctx):
    if case[0] == 'word':
        run_words(case, ctx)
    else:
        check(ctx, case[2], algos(case[3])[case[2]], case[1])


def setup(tier):
    setups.patch()
