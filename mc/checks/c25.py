"""C25: histograms show the probabilities of the qubits asked for."""
import itertools

import numpy as np

from mc import cloud, pq, ref, sims
from mc.checks import c19

ID = 'C25'
RULE = ('(sim) every state of a list on 1-4 qubits x engine lists (none, static mapper, moving mapper) x every ordered selection of the qubits x every way of grouping it into qubits and registers '
        '(lists, Quregs); (cloud) the same selections and groupings after a run on every cloud backend against stand-in services; (refuse) every backend that knows no probabilities and unknown qubits. '
        'Non-trivial: at least two outcomes have a probability')
ASSUMPTIONS = ['the services are the stand-ins of C19', 'the bars are read from the rectangles and tick labels of the returned axes']
CHUNK = 1


def states():
    w = np.exp(2j * np.pi / 3)
    out = {'one': [.6, .8j], 'zero1': [1, 0], 'two': [.5, 0, .1j, -.7], 'w': [0, 1, w, 0, w * w, 0, 0, 0], 'generic': [.1, .2j, -.3, .4 + .1j, .5, -.6j, .7, .05],
           'ghz-mixed': [0, 0, 1, 0, 0, 1j, 0, 0], 'basis6': [0, 0, 0, 0, 0, 0, 1, 0], 'tilted': [1, .001, 0, .01j, .0001, 0, 1e-4, .02],
           'four': [(i * 7 % 5 - 1.5) + 1j * (i * 3 % 4) for i in range(16)]}
    return {k: np.array(v, dtype=complex) / np.linalg.norm(v) for k, v in out.items()}


def groupings(sel):
    """every way to pass the qubits sel (in this order): a list whose entries are single qubits ('q', i) or registers ('r'/'l', [i, ...])"""
    n = len(sel)
    for cuts in itertools.product((0, 1), repeat=n - 1):
        groups, cur = [], [sel[0]]
        for c, x in zip(cuts, sel[1:]):
            if c:
                groups.append(cur)
                cur = [x]
            else:
                cur = cur + [x]
        groups.append(cur)
        for kinds in itertools.product(*[(('q', 'r', 'l') if len(g) == 1 else ('r', 'l')) for g in groups]):
            yield [(k, g) for k, g in zip(kinds, groups)]


def few(sel):
    """a smaller set of groupings"""
    out = [[('q', [i]) for i in sel], [('r', [i]) for i in sel], [('r', list(sel))]]
    if len(sel) > 1:
        out += [[('r', list(sel[:1])), ('l', list(sel[1:]))], [('q', list(sel[:1])), ('r', list(sel[1:]))], [('r', list(sel[:-1])), ('q', list(sel[-1:]))]]
    return out


def cases(tier):
    T = tier != 'quick'
    out = []
    for s in states():
        for eng in ('none', 'manual', 'linear'):
            out.append(['sim', s, eng, T or len(states()[s]) < 16])
    for cfg in (c19.CFGS if T else c19.QUICK):
        for mp in ('id', 'rev', 'gap'):
            if mp in c19.CFGS[cfg]['maps']:
                for prog in range(3):
                    out.append(['cloud', cfg, mp, prog, T])
    out += [['wide', n] for n in ((5, 6) if not T else (5, 6, 7, 8))]
    out += [['refuse', k] for k in ('dummy', 'classical', 'resource', 'printer', 'unitary', 'unflushed', 'released', 'recorder')]
    return out


def run(case, ctx):
    import matplotlib.pyplot as plt

    try:
        {'sim': run_sim, 'cloud': run_cloud, 'wide': run_wide, 'refuse': run_refuse}[case[0]](case, ctx)
    finally:
        plt.close('all')


def arg(q, grouping):
    from projectq.types import Qureg

    out = []
    for k, g in grouping:
        out.append(q[g[0]] if k == 'q' else Qureg([q[i] for i in g]) if k == 'r' else [q[i] for i in g])
    return out


def judge(ctx, where, backend, q, sel, grouping, want, tol, all_keys, labels=False):
    """want: bit string of the selection -> probability"""
    import matplotlib.pyplot as plt
    from projectq.libs.hist import histogram

    a = arg(q, grouping)
    if len(grouping) == 1 and grouping[0][0] == 'r':
        forms = [a, a[0]]  # a register itself is a list of qubits
    else:
        forms = [a]
    for f in forms:
        before = [x if not isinstance(x, list) else list(x) for x in f]
        fig, axes, got = histogram(backend, f)
        ctx.tr()
        ctx.trace()
        desc = f'{where}, qubits {grouping}'
        if [x if not isinstance(x, list) else list(x) for x in f] != before:
            ctx.fail('the list of qubits was changed', desc)
        keys = {''.join(b) for b in itertools.product('01', repeat=len(sel))}
        if all_keys and set(got) != keys or not set(got) <= keys:
            ctx.fail(f'{where.split("/")[0]}: wrong outcomes', f'{desc}: {sorted(got)}')
        elif any(abs(got.get(k, 0) - want.get(k, 0)) > tol for k in keys):
            ctx.fail(f'{where.split("/")[0]}: wrong probabilities', f'{desc}: {got}, expected {want}')
        bars = list(axes.patches)
        if [b.get_height() for b in bars] != list(got.values()) or len({round(b.get_x() + b.get_width() / 2, 6) for b in bars}) != len(got):
            ctx.fail(f'{where.split("/")[0]}: the bars are not the probabilities', f'{desc}: {[b.get_height() for b in bars]} for {got}')
        elif labels:
            fig.canvas.draw()
            ticks = {round(p, 6): t.get_text() for p, t in zip(axes.get_xticks(), axes.get_xticklabels())}
            shown = {ticks.get(round(b.get_x() + b.get_width() / 2, 6)): b.get_height() for b in bars}
            if shown != got:
                ctx.fail(f'{where.split("/")[0]}: the labels are not the outcomes', f'{desc}: {shown} for {got}')
        if axes.figure is not fig:
            ctx.fail('the axes belong to another figure', desc)
        if sum(1 for v in want.values() if v > 1e-12) > 1:
            ctx.key((where, str(grouping)))
        plt.close(fig)


def marg(v, n, sel):
    out = {}
    for i, a in enumerate(v):
        k = ''.join(str(i >> j & 1) for j in sel)
        out[k] = out.get(k, 0) + abs(a) ** 2
    return out


def run_sim(case, ctx):
    from projectq import MainEngine
    from projectq.cengines import LinearMapper, ManualMapper

    _, name, engs, full = case
    v = states()[name]
    n = int(np.log2(len(v)))
    chain = {'none': [], 'manual': [ManualMapper(lambda i: 17 - 3 * i)], 'linear': [LinearMapper(num_qubits=n)]}[engs]
    sim = sims.make('cpp')
    eng = MainEngine(sim, chain)
    q = [eng.allocate_qubit()[0] for _ in range(n)]
    eng.flush()
    sim.set_wavefunction(list(v), q)
    ctx.state((name, engs))
    first = True
    for k in range(1, n + 1):
        for sel in itertools.permutations(range(n), k):
            for g in (groupings(sel) if full else few(sel)):
                judge(ctx, f'Simulator/{engs}/{name}', sim, q, sel, g, marg(v, n, sel), 1e-9, True, labels=first or sel == tuple(range(n))[::-1])
                first = False
            m, st = sim.cheat()
            if not np.allclose(np.sort(np.abs(np.array(st))), np.sort(np.abs(v))):
                ctx.fail('the histogram changed the state', f'{name} {engs} {sel}')
    ctx.outcome(f'sim {engs}')
    sims.sink(eng)
    for x in q:
        x.id = -1


PROGS = [['H0', 'CX01', 'Rx2'], ['Rx0', 'Ry1', 'H2', 'CX20'], ['Ry1', 'CX12']]
AQTP = [['Rx0', 'MS01', 'Ry2'], ['Rx0', 'Ry1', 'MS20'], ['Ry1', 'MS12']]


def run_cloud(case, ctx):
    from projectq.ops import Measure

    _, cfg, mp, prog, full = case
    svc = c19.service(cfg)
    svc.hist = None
    letters = (AQTP if c19.CFGS[cfg]['svc'] == 'aqt' else PROGS)[prog]
    with cloud.Quiet(), svc.patch(), cloud.rng(0.5):
        s = c19.Sys(cfg, mp, svc)
        q = s.alloc(3)
        try:
            for x in letters:
                c19.apply(s.eng, x, q)
            for i in (1, 0, 2):
                Measure | q[i]
            s.eng.flush()
            locs = s.locations(q)
            dist = svc.jobs[-1].dist()
            ctx.state((cfg, mp, prog))
            for k in (1, 2, 3):
                for sel in itertools.permutations(range(3), k):
                    for g in (groupings(sel) if full or k == 2 else few(sel)):
                        judge(ctx, f'{cfg}/{mp}/{prog}', s.be, q, sel, g, c19.marginal(dist, [locs[i] for i in sel]), c19.tol_of(cfg, dist), False)
            ctx.outcome(f'cloud {cfg}')
        finally:
            s.close(q)


def run_wide(case, ctx):
    from projectq import MainEngine

    n = case[1]
    sim = sims.make('cpp')
    eng = MainEngine(sim, [])
    q = [eng.allocate_qubit()[0] for _ in range(n)]
    eng.flush()
    v = np.zeros(2 ** n, dtype=complex)
    for k in range(4):
        v[(k * 37 + 5) % 2 ** n] = k + 1
    v /= np.linalg.norm(v)
    sim.set_wavefunction(list(v), q)
    for sel in (tuple(range(n)), tuple(range(n))[::-1], tuple((i * 3 + 1) % n for i in range(n)) if n % 3 else tuple(range(1, n)) + (0, )):
        for g in few(sel):
            with sims.Quiet():
                judge(ctx, f'Simulator/wide/{n}', sim, q, sel, g, marg(v, n, sel), 1e-9, True)
    ctx.outcome('wide')
    sims.sink(eng)
    for x in q:
        x.id = -1


def run_refuse(case, ctx):
    from projectq import MainEngine
    from projectq import backends as B
    from projectq.cengines import DummyEngine
    from projectq.libs.hist import histogram

    k = case[1]
    be = {'dummy': DummyEngine, 'classical': B.ClassicalSimulator, 'resource': B.ResourceCounter, 'printer': lambda: B.CommandPrinter(accept_input=False), 'unitary': B.UnitarySimulator,
          'recorder': pq.Recorder}.get(k, lambda: sims.make('cpp'))()
    with sims.Quiet():
        eng = MainEngine(be, [])
        q = [eng.allocate_qubit()[0] for _ in range(2)]
        if k == 'released':
            eng.flush()
            w = type(q[0])(eng, 77)
            ask = [q[0], w]
        else:
            ask = q
            if k != 'unflushed':
                eng.flush()
            else:
                from projectq.cengines import LocalOptimizer

                opt = LocalOptimizer(5)
                eng2 = MainEngine(sims.make('cpp'), [opt])
                ask = [eng2.allocate_qubit()[0]]
                be = eng2.backend
        ctx.tr()
        ctx.trace()
        try:
            r = histogram(be, ask)
            ctx.fail(f'{k}: not refused', f'{r[2]}')
        except RuntimeError:
            ctx.outcome(f'refused {k}')
        except Exception as e:  # noqa
            ctx.fail(f'{k}: {type(e).__name__}', str(e))
        sims.sink(eng)
        for x in list(q) + list(ask):
            x.id = -1
        if k == 'unflushed':
            sims.sink(eng2)
