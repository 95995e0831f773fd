"""C27: the parallel simulator gives the same result under every thread schedule."""
import ctypes
import itertools
import os
import subprocess
import sys
import sysconfig

import numpy as np

from mc import env, sims
from mc.checks import c08

ID = 'C27'
RULE = ('the simulator core is compiled from the current sources with memory accesses instrumented and linked to a controlled OpenMP runtime (mc/race/runtime.cpp); every operation of the '
        'simulator (each kernel on each placement of targets and controls, allocation, release, measurement, collapse, probability, expectation value, operator application, time evolution, '
        'arithmetic emulation) x qubit count x team size x thread order: no two threads touch the same byte between two barriers unless both read or both are atomic, and state and answers '
        'equal those of one thread. Non-trivial: a region ran with a team of at least two threads')
ASSUMPTIONS = ['without conflicting accesses between barriers all schedules of a region are equivalent (its threads then cannot influence each other)',
               'the instrumented build (-O1, GCC, same pragmas) performs the accesses of the source; state 1e-12, answers 1e-9']
CHUNK = 4
_S = {}
RENAMED = ['memcpy', 'memmove', 'memset', 'free', '_ZdlPv', '_ZdlPvm', '_ZdaPv', '_ZdaPvm', '_ZdlPvSt11align_val_t', '_ZdlPvmSt11align_val_t', '__cxa_guard_acquire', '__cxa_guard_release']
VARIANTS = {'race-intrin': ['-mavx2', '-mfma', '-DINTRIN'], 'race-plain': ['-DNOINTRIN']}


def setup(tier):
    import pybind11

    d = os.path.join(env.scratch(), 'race')
    os.makedirs(d, exist_ok=True)
    here = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'race')
    jobs = [(None, subprocess.Popen(['g++', '-O2', '-std=c++17', '-fPIC', '-fvisibility=hidden', '-c', os.path.join(here, 'runtime.cpp'), '-o', os.path.join(d, 'rt.o')]))]
    for v, flags in VARIANTS.items():
        cmd = ['g++', '-O1', '-fno-tree-vectorize', '-fPIC', '-std=c++17', '-fopenmp', '-fsanitize=thread', '-fvisibility=hidden', '-w', '-DVERSION_INFO="0"',
               f'-DPYBIND11_COMPILER_TYPE="{v}"', *flags, '-I' + pybind11.get_include(), '-I' + sysconfig.get_paths()['include'], '-c',
               os.path.join(env._SIM, '_cppsim.cpp'), '-o', os.path.join(d, v + '.o')]
        jobs.append((v, subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)))
    for v, p in jobs:
        log = p.communicate()[0]
        if p.returncode:
            raise env.BuildError('the simulator core does not compile:\n' + (log or b'').decode()[-3000:])
    for v in VARIANTS:
        so = os.path.join(d, v + '.so')
        subprocess.run(['objcopy', *[f'--redefine-sym={w}=race_{w}' for w in RENAMED], os.path.join(d, v + '.o')], check=True)
        subprocess.run(['g++', '-shared', '-Wl,-Bsymbolic', os.path.join(d, v + '.o'), os.path.join(d, 'rt.o'), '-o', so, '-lgomp'], check=True)
        _S[v] = so


def load(v):
    if v not in _S.setdefault('lib', {}):
        m = env.load_core(_S[v], '_cppsim')
        sims.module(v, m)
        lib = ctypes.CDLL(_S[v])
        _S['lib'][v] = lib
    return _S['lib'][v]


def config(lib, T, order):
    lib.race_config(T, (ctypes.c_int * 8)(*order, *range(T, 8)))


def stats(lib):
    out, msg = (ctypes.c_ulong * 6)(), ctypes.create_string_buffer(512)
    lib.race_stats(out, msg)
    return list(out), msg.value.decode()


def orders(T, tier):
    P = list(itertools.permutations(range(T)))
    return P if T <= 3 else ([P[0], P[-1], P[9], P[16]] if tier == 'quick' else P if T == 4 else [P[0], P[-1]])


def teams(tier):
    return (2, 3, 4) if tier == 'quick' else (2, 3, 4, 5, 8)


def cases(tier):
    out = []
    top = 6 if tier == 'quick' else 7
    for v in VARIANTS:
        for n in range(1, top + 1):
            P = sum(1 for _ in c08.placements(n))
            size = 40
            step = 1
            for i in range(0, P, size):
                out.append(['gate', v, n, i, size, tier])
        for op in OPS:
            for n in range(1, top + 1):
                out.append(['op', v, op, n, tier])
    return out


# ---- operations: each is a generator of argument tuples and a function (sim, eng, q, args) -> answers
def subsets(n):
    for k in range(1, n + 1):
        yield from itertools.combinations(range(n), k)


def bits(k):
    return itertools.product((0, 1), repeat=k)


def o_measure(n):
    from projectq.ops import All, Measure

    for s in subsets(n):
        yield lambda sim, eng, q, s=s: (All(Measure) | [q[i] for i in s], eng.flush(), [int(q[i]) for i in s])[-1]


def o_collapse(n):
    for s in subsets(n):
        for b in bits(len(s)):
            if n < 5 or len(s) in (1, n) or sum(b) == 1:
                yield lambda sim, eng, q, s=s, b=b: sim.collapse_wavefunction([q[i] for i in s], list(b))


def o_probability(n):
    for s in subsets(n):
        for b in bits(len(s)):
            yield lambda sim, eng, q, s=s, b=b: sim.get_probability(list(b), [q[i] for i in s])


def o_amplitude(n):
    for b in bits(n):
        yield lambda sim, eng, q, b=b: sim.get_amplitude(list(b), q)


def o_expectation(n):
    from projectq.ops import QubitOperator

    for s in subsets(n):
        for p in ('X', 'Y', 'Z'):
            o = QubitOperator(tuple((i, p) for i in s), .7) + QubitOperator(((s[-1], 'Y'),), -.2) + QubitOperator((), .4)
            yield lambda sim, eng, q, o=o: sim.get_expectation_value(o, q)


def o_apply(n):
    from projectq.ops import QubitOperator

    for s in subsets(n):
        for p in ('X', 'Y', 'Z'):
            o = QubitOperator(tuple((i, p) for i in s), .7) + QubitOperator(((s[-1], 'Y'),), -.2j) + QubitOperator((), .4)
            yield lambda sim, eng, q, o=o: sim.apply_qubit_operator(o, q)


def o_evolve(n):
    from projectq.meta import Control
    from projectq.ops import QubitOperator, TimeEvolution

    for s in subsets(n):
        rest = [i for i in range(n) if i not in s]
        h = QubitOperator(tuple((i, 'XYZ'[i % 3]) for i in s), .7) + QubitOperator(((s[-1], 'Y'),), -.2) + QubitOperator((), .4)
        for c in {tuple(), tuple(rest[:1]), tuple(rest)}:
            def f(sim, eng, q, h=h, c=c):
                with Control(eng, [q[i] for i in c]):
                    TimeEvolution(.9, h) | q if not c else TimeEvolution(.9, relabel(h, [i for i in range(n) if i not in c])) | [q[i] for i in range(n) if i not in c]
                eng.flush()
            yield f


def relabel(h, keep):
    from projectq.ops import QubitOperator

    out = QubitOperator()
    for t, c in h.terms.items():
        out += QubitOperator(tuple((keep.index(i), p) for i, p in t), c)
    return out


def o_alloc(n):
    def f(sim, eng, q, k=1):
        r = eng.allocate_qureg(k)
        eng.flush()
        m, v = sim.cheat()
        v = np.array(v)
        del r
        eng.flush()
        return list(v)
    for k in (1, 2):
        yield lambda sim, eng, q, k=k: f(sim, eng, q, k)


def o_release(n):
    """the qubits of a basis state are released in some order"""
    for first in range(n):
        def f(sim, eng, q, first=first):
            from projectq.ops import Measure
            Measure | q[first]
            eng.flush()
            b = int(q[first])
            x = q.pop(first)
            x.__del__()
            eng.flush()
            return [b]
        yield f


def o_math(n):
    from projectq.libs.math import AddConstant, AddConstantModN, MultiplyByConstantModN
    from projectq.meta import Control
    from projectq.ops import BasicMathGate

    class Mix(BasicMathGate):
        def __init__(self):
            super().__init__(lambda x: (x ^ 1,))

    for k in range(1, n + 1):
        for c in {0, min(1, n - k), n - k}:
            for g in (AddConstant(1), AddConstant(-3), Mix(), AddConstantModN(1, 2 ** k - (k > 1)), MultiplyByConstantModN(2 if k > 1 else 1, 2 ** k - (k > 1))):
                def f(sim, eng, q, g=g, k=k, c=c):
                    with Control(eng, q[k:k + c]):
                        g | q[:k]
                    eng.flush()
                yield f
    for k in range(1, n):
        class Two(BasicMathGate):
            def __init__(self):
                super().__init__(lambda x, y: (x, x ^ y))

        yield lambda sim, eng, q, k=k, T=Two: (T() | (q[:k], q[k:]), eng.flush(), None)[-1]


def o_setwave(n):
    for p in list(itertools.permutations(range(n)))[:24]:
        yield lambda sim, eng, q, p=p: sim.set_wavefunction(list(c08.vec(n, 3)), [q[i] for i in p])


OPS = {'measure': o_measure, 'collapse': o_collapse, 'probability': o_probability, 'amplitude': o_amplitude, 'expectation': o_expectation, 'apply': o_apply, 'evolve': o_evolve,
       'alloc': o_alloc, 'release': o_release, 'math': o_math, 'setwave': o_setwave}


def run(case, ctx):
    tier = case[-1]
    v = case[1]
    lib = load(v)
    if case[0] == 'op':
        n = case[3]
        work = [(f'{case[2]} {i}', f) for i, f in enumerate(OPS[case[2]](n))]
    else:
        n = case[2]
        P = list(itertools.islice(c08.placements(n), case[3], case[3] + case[4]))
        work = []
        for t, c in P:
            def f(sim, eng, q, t=t, c=c):
                from projectq.meta import Control
                from projectq.ops import MatrixGate
                g = MatrixGate(c08.unitary(len(t)))
                with Control(eng, [q[i] for i in c]):
                    g | (tuple(q[i] for i in t) if len(t) > 1 else q[t[0]])
                eng.flush()
            work.append((f'gate on {t} controls {c}', f))
    plan = [(1, (0,))] + [(T, o) for T in teams(tier) for o in orders(T, tier)]
    stats(lib)
    base = {}
    seen = 0
    for T, o in plan:
        config(lib, T, o)
        try:
            for name, f in work:
                before = stats(lib)[0]
                got = execute(v, n, f, ctx)
                s, why = stats(lib)
                ctx.trace()
                if s[4]:
                    ctx.fail(f'{v} {case[0]} {name} n={n} T={T}', f'{s[4]} conflicting accesses: {why}')
                    return
                if T == 1:
                    base[name] = got
                else:
                    if s[1] > before[1]:
                        ctx.key((v, n, name))
                    ctx.state((v, n, name, T, o))
                    if not same(base[name], got):
                        ctx.fail(f'{v} {case[0]} {name} n={n} T={T}', f'result with {T} threads in the order {o} differs from that of one thread')
                        return
                seen = s[3]
        finally:
            config(lib, 1, (0,))
    ctx.outcome('with team' if seen else 'alone')


def same(a, b):
    if (a[0] is None) != (b[0] is None) or a[2] != b[2] or len(a[1]) != len(b[1]):
        return False
    x, y = a[0], b[0]
    if (x is None) != (y is None):
        return False
    if x is not None and not np.allclose(np.array(x, dtype=complex), np.array(y, dtype=complex), atol=1e-9, rtol=0):
        return False
    return np.allclose(a[1], b[1], atol=1e-11, rtol=0)


def execute(v, n, f, ctx):
    sim = sims.make(v, False)
    eng = sims.engine(sim)
    q = eng.allocate_qureg(n)
    eng.flush()
    sim.set_wavefunction(list(c08.vec(n)), q)
    ctx.tr()
    r = f(sim, eng, q)
    m, st = sim.cheat()
    st = np.array(st)
    sims.sink(eng)
    for x in q:
        x.id = -1
    return r, st, sorted(m.items())
