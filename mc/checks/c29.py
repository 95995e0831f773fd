"""C29: running a program has no effect outside its own engine: nothing handed in changes, and other programs are not influenced."""
import hashlib
import itertools
import json
import os
import subprocess
import sys

import numpy as np

from mc import pq, setups, sims

ID = 'C29'
RULE = ('(pair) every ordered pair of programs on two engines of the same compiler configuration, sharing all gate objects, operators, vectors and rule sets, under every interleaving of their steps (quick tier: six of them behind the slower chains): '
        'each engine must emit exactly the commands (and give the results) that the program gives alone in a fresh process; (again) every program repeated after every other one; (use) every '
        'sequence of operations on a shared gate: the object and what it was made from stay as they were; (hash) every program x configuration in processes with other hash seeds. '
        'Non-trivial: an interleaving that switches at least twice')
ASSUMPTIONS = ['the Python simulator and the unitary simulator draw from the process-wide generators of numpy and random, so their random results are not compared']
CHUNK = 1


class Pool:
    """What a user makes once and uses in many places."""

    def __init__(self):
        from projectq import ops as O
        from projectq.libs import math as M

        self.raw = dict(vec=[0.5, -0.5, 0.5j, 0.5], angles=[0.1, 0.2, -0.3, 0.4], mat=np.array([[0.6, 0.8], [-0.8, 0.6]]), bits=[1, 0, 1], values=[1, 0],
                        terms=[((0, 'X'), (1, 'Z')), ((1, 'Y'),)], marks=[True, False], lmat=[[0, 1], [1, 0]])
        r = self.raw
        op = O.QubitOperator('X0 Z1', 0.5) + O.QubitOperator('Z0', -0.3)
        comm = O.QubitOperator('X0 X1', 0.5) + O.QubitOperator('Z0 Z1', -0.3)
        self.make = {
            'rx': lambda: O.Rx(0.3), 'rz': lambda: O.Rz(-0.7), 'ph': lambda: O.Ph(0.4), 'r': lambda: O.R(0.9), 'prep': lambda: O.StatePreparation(r['vec']),
            'ucr': lambda: O.UniformlyControlledRy(r['angles']), 'ucz': lambda: O.UniformlyControlledRz(r['angles']), 'mg': lambda: O.MatrixGate(r['mat']), 'lmg': lambda: O.MatrixGate(r['lmat']),
            'flip': lambda: O.FlipBits(r['bits']), 'te': lambda: O.TimeEvolution(0.3, comm), 'op': lambda: O.QubitOperator('X0 Z1'), 'sum': lambda: O.QubitOperator('X0 Z1', 0.5) + O.QubitOperator('Z0', -0.3),
            'add': lambda: M.AddConstant(3), 'mul': lambda: M.MultiplyByConstantModN(2, 3), 'addn': lambda: M.AddConstantModN(1, 3), 'cx': lambda: O.C(O.X), 'ccz': lambda: O.C(O.Z, 2),
            'all': lambda: O.All(O.H), 'qftd': lambda: O.get_inverse(O.QFT), 'rzz': lambda: O.Rzz(0.6), 'bar': lambda: O.Barrier, 'sd': lambda: O.Sdag, 'ent': lambda: O.Entangle, 'swap': lambda: O.Swap,
            'qpe': lambda: O.QPE(O.Rz(0.5)), 'sqx': lambda: O.SqrtX, 'h': lambda: O.H, 'x': lambda: O.X, 't': lambda: O.T}
        self.op, self.comm = op, comm
        self.g = {k: f() for k, f in self.make.items()}
        self.before = self.look()

    def look(self):
        """What the user can see of the shared things."""
        out = {}
        for k, v in self.raw.items():
            out['the value ' + k] = repr(v.tolist() if hasattr(v, 'tolist') else v)
        for k, g in list(self.g.items()) + [('operator', self.op), ('hamiltonian', self.comm)]:
            x = [str(g)]
            for a in ('angle', 'angles', 'terms', 'time', 'final_state', 'bits_to_flip', 'a', 'N', 'interchangeable_qubit_indices'):
                if hasattr(g, a):
                    v = getattr(g, a)
                    x.append((a, sorted(map(repr, v.items())) if isinstance(v, dict) else repr(v)))
            if hasattr(g, 'hamiltonian'):
                x.append(sorted(map(repr, g.hamiltonian.terms.items())))
            try:
                x.append(repr(np.round(np.array(g.matrix), 12).tolist()))
            except AttributeError:
                pass
            out['the gate ' + k] = repr(x)
        return out

    def changed(self):
        """Names of shared things that are no longer what they were."""
        now = self.look()
        bad = [k for k in self.before if self.before[k] != now[k]]
        for k, f in self.make.items():
            if not self.g[k] == f():
                bad.append(f'the gate {k} no longer equals a new one')
        return bad


# ------------------------------------------------------------------ programs: three steps each, on at most four qubits


def _programs():
    from projectq import ops as O
    from projectq.meta import Compute, Control, Dagger, Loop, Uncompute

    P = {}

    def put(name, *steps, raw=True):
        P[name] = (steps, raw)

    def a(p, n=2):
        p.q = p.eng.allocate_qureg(n)

    def rot1(p):
        a(p)
        p.g['rx'] | p.q[0]
        p.g['rx'] | p.q[0]
        p.g['rz'] | p.q[1]

    def rot2(p):
        p.g['cx'] | (p.q[0], p.q[1])
        O.get_inverse(p.g['rz']) | p.q[1]
        p.g['r'] | p.q[0]
        p.g['r'] | p.q[0]

    def flush(p):
        p.eng.flush()
    put('rotations', rot1, rot2, flush)

    def nest1(p):
        a(p, 3)
        with Control(p.eng, p.q[0]):
            with Dagger(p.eng):
                p.g['rx'] | p.q[1]
                p.g['t'] | p.q[1]

    def nest2(p):
        with Loop(p.eng, 3):
            p.g['rz'] | p.q[2]
            with Control(p.eng, p.q[1]):
                p.g['x'] | p.q[2]
        p.eng.flush()

    def nest3(p):
        with Compute(p.eng):
            p.g['all'] | p.q
            p.g['sd'] | p.q[0]
        p.g['ph'] | p.q[0]
        Uncompute(p.eng)
        p.eng.flush()
    put('blocks', nest1, nest2, nest3)

    def prep1(p):
        a(p)
        p.g['prep'] | p.q

    def prep2(p):
        p.eng.flush()
        p.g['ucr'] | (p.q, p.extra()[0])

    def prep3(p):
        with Dagger(p.eng):
            p.g['ucz'] | (p.q, p.x[0])
        p.eng.flush()
    put('preparation', prep1, prep2, prep3, raw=False)

    def math1(p):
        a(p, 2)
        p.g['add'] | p.q

    def math2(p):
        with Control(p.eng, p.extra()):
            p.g['addn'] | p.q

    def math3(p):
        p.eng.flush()
    put('arithmetic', math1, math2, math3, raw=False)

    def te1(p):
        a(p)
        p.g['te'] | p.q

    def te2(p):
        p.g['op'] | p.q
        p.g['te'] | p.q

    def te3(p):
        O.get_inverse(p.g['te']) | p.q
        p.eng.flush()
    put('operators', te1, te2, te3, raw=False)

    def me1(p):
        a(p)
        p.g['h'] | p.q[0]
        p.g['cx'] | (p.q[0], p.q[1])
        O.All(O.Measure) | p.q
        p.eng.flush()

    def me2(p):
        p.say((int(p.q[0]), int(p.q[1])))
        if int(p.q[0]):
            p.g['x'] | p.q[1]
        else:
            p.g['h'] | p.q[1]
        O.Measure | p.q[1]

    def me3(p):
        p.eng.flush()
        p.say(int(p.q[1]))
    put('measurement', me1, me2, me3)

    def mg1(p):
        a(p)
        p.g['mg'] | p.q[0]
        p.g['lmg'] | p.q[1]

    def mg2(p):
        p.g['swap'] | (p.q[0], p.q[1])
        p.g['flip'] | p.q

    def mg3(p):
        p.g['qftd'] | p.q
        p.eng.flush()
    put('matrices', mg1, mg2, mg3, raw=False)

    def er1(p):
        a(p)
        p.g['h'] | p.q[0]

    def er2(p):
        with Control(p.eng, p.q[0]):
            O.Measure | p.q[1]
        p.eng.flush()

    def er3(p):
        p.g['x'] | p.q[1]
        p.eng.flush()
    put('error', er1, er2, er3)

    def re1(p):
        a(p, 2)
        p.g['x'] | p.q[1]
        b = p.eng.allocate_qubit()
        p.g['h'] | b
        O.Measure | b
        p.eng.flush()
        del b

    def re2(p):
        b = p.eng.allocate_qubit()
        p.g['cx'] | (p.q[1], b)
        p.g['cx'] | (p.q[1], b)
        del b

    def re3(p):
        c = p.eng.allocate_qubit()
        p.g['ccz'] | (p.q[0], p.q[1], c)
        p.eng.flush()
        p.eng.deallocate_qubit(c[0])
    put('release', re1, re2, re3)

    def co1(p):
        a(p, 3)
        with Compute(p.eng):
            p.g['rx'] | p.q[0]
            b = p.eng.allocate_qubit()
            p.g['cx'] | (p.q[0], b)
        with Control(p.eng, b):
            p.g['rz'] | p.q[1]
        Uncompute(p.eng)

    def co2(p):
        with Control(p.eng, p.q[:2], ctrl_state='10'):
            p.g['x'] | p.q[2]

    def co3(p):
        p.g['bar'] | p.q
        p.eng.flush()
    put('ancilla', co1, co2, co3, raw=False)
    return P


RAW = ('bare', 'opt', 'sim', 'fuse')
CONFS = ['bare', 'opt', 'sim', 'fuse', 'default', 'rules', 'rgs-default', 'rgs-rzh', 'trapped_ion', 'linear-4', 'linear-4c', 'grid-22', 'ionq', 'aqt', 'aws-sv1', 'ibm-5', 'ibm-sim']
HASHSEEDS = ['1', '2', 'random']
_RULES = None


def chain(conf):
    from projectq import cengines as E

    global _RULES
    if conf in ('bare', 'sim', 'fuse'):
        return []
    if conf == 'opt':
        return [E.LocalOptimizer(4)]
    if conf == 'rules':  # both engines use one and the same rule set
        if _RULES is None:
            import projectq.libs.math
            import projectq.setups.decompositions as D

            _RULES = E.DecompositionRuleSet(modules=[projectq.libs.math, D])
        from projectq import ops as O

        def keep(eng, cmd):
            n = len([q for r in cmd.all_qubits for q in r])
            return isinstance(cmd.gate, O.ClassicalInstructionGate) or (n == 1 and type(cmd.gate).__name__ not in ('QFTGate', 'DaggeredGate')) or (n == 2 and cmd.gate == O.X)
        return [E.AutoReplacer(_RULES), E.TagRemover(), E.LocalOptimizer(3), E.AutoReplacer(_RULES), E.InstructionFilter(keep)]
    return setups._table()[conf]['make']()


class Run:
    """One program on its own engine."""

    def __init__(self, conf, prog, pool, seed=5):
        from projectq import MainEngine

        self.conf, self.steps = conf, PROGRAMS()[prog][0]
        self.g = pool.g
        self.sim = None
        self.heard = []
        self.dead = False
        self.x = None
        tap = pq.Recorder()
        if conf in ('sim', 'fuse'):
            self.sim = sims.make('cpp', conf == 'fuse', seed)
            self.eng = MainEngine(self.sim, [tap])
            self.cmds = tap.cmds
        else:
            rec = pq.Recorder(measure=1)
            self.eng = MainEngine(rec, chain(conf))
            self.cmds = rec.cmds
        self.k = 0

    def extra(self):
        self.x = self.eng.allocate_qubit()
        return self.x

    def say(self, v):
        self.heard.append(v)

    def step(self):
        if not self.dead:
            try:
                self.steps[self.k](self)
            except Exception as e:  # noqa
                self.heard.append(type(e).__name__)
                self.dead = True
                sims.sink(self.eng)
        self.k += 1

    def result(self):
        out = [show(c) for c in self.cmds]
        state = None
        if self.sim is not None and not self.dead:
            m, v = self.sim.cheat()
            state = [sorted(m.items()), [f'{x.real:.6f} {x.imag:.6f}' for x in (np.array(v) + 0)]]
        return [out, [str(x) for x in self.heard], state]

    def close(self):
        sims.sink(self.eng)
        for q in list(self.eng.active_qubits):
            q.id = -1


def show(c):
    g = c.gate
    s = f'{type(g).__name__} {g}'
    if hasattr(g, 'angle'):
        s += f' {g.angle!r}'
    return f'{s} {[[q.id for q in r] for r in c.qubits]} {[q.id for q in c.control_qubits]} {c.control_state} {[type(t).__name__ for t in c.tags]}'


_P = None


def PROGRAMS():
    global _P
    if _P is None:
        _P = _programs()
    return _P


def alone(conf, prog):
    p = Pool()
    r = Run(conf, prog, p)
    for _ in range(3):
        r.step()
    res = r.result()
    r.close()
    return res


def runnable():
    return [(c, p) for c in CONFS for p in PROGRAMS() if PROGRAMS()[p][1] or c not in RAW]


SOLO = {}


def digest(x):
    return hashlib.blake2b(json.dumps(x).encode(), digest_size=12).hexdigest()


def setup(tier):
    """What each program gives alone, each in a process of its own that has done nothing else."""
    setups.patch()
    import multiprocessing as mp

    PROGRAMS()
    with mp.get_context('fork').Pool(8, maxtasksperchild=1) as pool:
        for k, r in zip(runnable(), pool.imap(_alone, runnable(), chunksize=1)):
            SOLO[k] = r


def _alone(k):
    with sims.Quiet():
        return alone(*k)


FEW = ('AAABBB', 'ABABAB', 'BABABA', 'ABBBAA', 'BAAABB', 'AABBAB')


def schedules(full):
    if not full:
        yield from FEW
        return
    for pos in itertools.combinations(range(6), 3):
        yield ''.join('A' if i in pos else 'B' for i in range(6))


def cases(tier):
    T = tier != 'quick'
    out = [['hash', s] for s in HASHSEEDS]
    P = list(PROGRAMS())
    for c in CONFS:
        for p in P:
            if (c, p) in runnable():
                out.append(['pair', c, p, T or c in ('bare', 'opt', 'sim', 'fuse', 'rules')])
                out.append(['again', c, p])
    for g in sorted(Pool().make):
        out.append(['use', g, 3 if T else 2])
    out.append(['alias'])
    return out


def run(case, ctx):
    {'pair': run_pair, 'again': run_again, 'use': run_use, 'hash': run_hash, 'alias': run_alias}[case[0]](case, ctx)


def compare(ctx, sig, got, want):
    if json.loads(json.dumps(got)) == json.loads(json.dumps(want)):
        return True
    for name, a, b in zip(('commands', 'answers', 'state'), got, want):
        if a != b:
            i = next((i for i, (x, y) in enumerate(zip(a or [], b or [])) if x != y), min(len(a or []), len(b or [])))
            ctx.fail(sig, f'{name} differ from those of the program alone at {i}: {str((a or [])[i:i + 2])[:200]} instead of {str((b or [])[i:i + 2])[:200]}')
            return False
    return True


def run_pair(case, ctx):
    _, conf, p1, full = case
    for p2 in PROGRAMS():
        if (conf, p2) not in SOLO:
            continue
        for sch in schedules(full):
            pool = Pool()
            A, B = Run(conf, p1, pool), Run(conf, p2, pool)
            for s in sch:
                (A if s == 'A' else B).step()
                ctx.tr()
            ra, rb = A.result(), B.result()
            A.close()
            B.close()
            ctx.trace()
            sig = f'{conf}: {p1} / {p2} {sch}'
            if sum(x != y for x, y in zip(sch, sch[1:])) > 1:
                ctx.key(sig)
            ctx.state((conf, p1, p2, sch))
            ok = compare(ctx, sig, ra, SOLO[conf, p1]) and compare(ctx, sig, rb, SOLO[conf, p2])
            bad = pool.changed()
            if bad:
                ctx.fail(sig, f'changed: {bad[:3]}')
                ok = False
            if not ok:
                return


def run_again(case, ctx):
    """The same pool, used by one program after another."""
    _, conf, p = case
    pool = Pool()
    for q in PROGRAMS():
        for x in (q, p):
            if (conf, x) not in SOLO:
                continue
            r = Run(conf, x, pool)
            for _ in range(3):
                r.step()
                ctx.tr()
            got = r.result()
            r.close()
            ctx.trace()
            ctx.key((conf, q, p, x))
            if not compare(ctx, f'{conf}: {x} after {q}', got, SOLO[conf, x]):
                return
            bad = pool.changed()
            if bad:
                ctx.fail(f'{conf}: {x}', f'changed: {bad[:3]}')
                return


WIDTH = {'prep': [2], 'ucr': [2, 1], 'ucz': [2, 1], 'flip': [3], 'te': [2], 'op': [2], 'sum': [2], 'add': [2], 'mul': [2], 'addn': [2], 'cx': [1, 1], 'ccz': [1, 1, 1], 'all': [3], 'qftd': [2], 'rzz': [1, 1],
         'bar': [2], 'ent': [2], 'swap': [1, 1], 'qpe': [2, 1]}


def run_use(case, ctx):
    """Every sequence of things one can do with a gate leaves it, and everything it was made from, as it was."""
    from copy import deepcopy

    from projectq import MainEngine
    from projectq import ops as O
    from projectq.meta import Compute, Control, Dagger, Loop, Uncompute

    _, name, depth = case
    pool = Pool()

    def apply(g, eng, q):
        regs, k = [], 0
        for w in WIDTH.get(name, [1]):
            regs.append(q[k:k + w] if w > 1 else q[k])
            k += w
        g | (tuple(regs) if len(regs) > 1 else regs[0])

    def fresh(conf='bare', n=4):
        eng = MainEngine(pq.Recorder(measure=0), chain(conf))
        return eng, eng.allocate_qureg(n)

    def done(eng):
        sims.sink(eng)
        for x in list(eng.active_qubits):
            x.id = -1

    def plain(g):
        eng, q = fresh()
        apply(g, eng, q)
        done(eng)

    def compiled(g, conf):
        eng, q = fresh(conf)
        try:
            apply(g, eng, q)
            eng.flush()
        finally:
            done(eng)

    def within(cm):
        def f(g):
            eng, q = fresh()
            try:
                with cm(eng, q[3]):
                    apply(g, eng, q)
            finally:
                done(eng)
        return f

    def undo(g):
        eng, q = fresh()
        with Compute(eng):
            apply(g, eng, q)
        O.X | q[3]
        Uncompute(eng)
        done(eng)

    def arithmetic(g):
        if name in ('op', 'sum'):
            x = g + g - 2 * g
            x *= g
            y = g * g
            y /= 2
            -g
            z = deepcopy(g)
            z += g
            z.compress()
            g.isclose(y)
            g.hermitian_conjugated if hasattr(g, 'hermitian_conjugated') else None

    def merge(g):
        c = deepcopy(g)
        c.get_merged(g)

    OPS = {'apply': plain, 'inverse': lambda g: plain(g.get_inverse()), 'twice inverse': lambda g: O.get_inverse(O.get_inverse(g)), 'merge': lambda g: g.get_merged(g), 'merged into': merge,
           'text': lambda g: (str(g), g.to_string(symbols=True) if hasattr(g, 'to_string') else 0, hash(g)), 'compare': lambda g: [g == h for h in pool.g.values()], 'copy': deepcopy,
           'control': within(lambda e, q: Control(e, q)), 'dagger': within(lambda e, q: Dagger(e)), 'loop': within(lambda e, q: Loop(e, 2)), 'undo': undo, 'default': lambda g: compiled(g, 'default'),
           'rules': lambda g: compiled(g, 'rules'), 'restricted': lambda g: compiled(g, 'rgs-rzh'), 'optimizer': lambda g: compiled(g, 'opt'), 'identity': O.is_identity, 'more controls': lambda g: O.C(g),
           'tensor': lambda g: O.All(g), 'arithmetic': arithmetic}
    for seq in itertools.product(OPS, repeat=depth):
        for o in seq:
            ctx.tr()
            try:
                OPS[o](pool.g[name])
            except Exception as e:  # noqa
                ctx.outcome(f'{o}: {type(e).__name__}')
        ctx.trace()
        ctx.key((name, seq))
        bad = pool.changed()
        if bad:
            ctx.fail(f'{name}: {seq}', f'changed: {bad[:3]}')
            return


def run_alias(case, ctx):
    """Gates are values: what happens later to the containers they were made from, to their inverses or to results of arithmetic does not change them."""
    from copy import deepcopy

    from projectq import ops as O

    def seen(pool):
        return {k: v for k, v in pool.look().items() if k.startswith('the gate')}

    def spoil(x):
        """Changes a result in every way a user can without touching private attributes."""
        if isinstance(x, O.QubitOperator):
            x += O.QubitOperator('Y0 Y1', 3.)
            x *= 2.
            x -= O.QubitOperator('Z0')
            x.terms[((3, 'X'),)] = 1.
        for a in ('angles', 'final_state', 'bits_to_flip'):
            if isinstance(getattr(x, a, None), list):
                getattr(x, a).append(7.)
        if isinstance(x, O.TimeEvolution):
            x.hamiltonian += O.QubitOperator('Y0 Y1', 3.)
            x.time = 9.
        if type(x).__name__ == 'MatrixGate':
            m = x.matrix
            m[0, 0] = 5.

    makers = {'containers': None, 'inverse': lambda g: O.get_inverse(g), 'twice inverse': lambda g: O.get_inverse(O.get_inverse(g)), 'copy': deepcopy, 'merge': lambda g: g.get_merged(g)}
    arith = {'+': lambda x: x + x, '-': lambda x: x - x, '*': lambda x: x * x, '2*': lambda x: 2 * x, '*2': lambda x: x * 2, '/': lambda x: x / 2, 'neg': lambda x: -x, 'evolution': lambda x: O.TimeEvolution(1., x)}
    for name in Pool().g:
        for what, f in list(makers.items()) + (list(arith.items()) if name in ('op', 'sum') else []):
            pool = Pool()
            before = seen(pool)
            ctx.tr()
            if what == 'containers' and name != 'rx':
                continue
            if what == 'containers':
                for v in pool.raw.values():
                    if hasattr(v, 'tolist'):
                        v[0, 0] = 99.
                    elif isinstance(v[0], list):
                        v[0][0] = 99.
                    else:
                        v[0] = 99
                pool.op += O.QubitOperator('Y0 Y1', 3.)
                pool.comm += O.QubitOperator('Y0 Y1', 3.)
            else:
                try:
                    r = f(pool.g[name])
                except Exception:  # noqa
                    continue
                if r is pool.g[name]:
                    if what in ('inverse', 'twice inverse'):
                        continue  # a gate that is its own inverse
                spoil(r)
            ctx.trace()
            ctx.key((name, what))
            after = seen(pool)
            bad = [k for k in before if before[k] != after[k] and not (what == 'containers' and k in ('the gate operator', 'the gate hamiltonian'))]
            if bad:
                ctx.fail(f'alias {name} {what}', f'{bad[:3]} changed through {what}')


def run_hash(case, ctx):
    env = dict(os.environ, PYTHONHASHSEED=case[1])
    r = subprocess.run([sys.executable, '-c', 'from mc import env\nenv.prepare()\nfrom mc.checks import c29\nc29.setups.patch()\nimport json\n'
                        'print("RESULT" + json.dumps([[c, p, c29.digest(c29.alone(c, p))] for c, p in c29.runnable()]))'], env=env, capture_output=True, text=True)
    line = [x for x in r.stdout.splitlines() if x.startswith('RESULT')]
    assert line, r.stderr[-500:]
    for c, p, d in json.loads(line[0][6:]):
        ctx.tr(3)
        ctx.trace()
        ctx.key((case[1], c, p))
        if d != digest(SOLO[c, p]):
            ctx.fail(f'{c}: {p} with hash seed {case[1]}', 'other commands or answers than with hash seed 0')
