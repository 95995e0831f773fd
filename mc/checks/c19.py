"""C19: cloud backends submit the circuit that was written, and hand its results to the right qubits."""
import itertools
import math

import numpy as np

from mc import cloud, pq, ref, sims

ID = 'C19'
RULE = ('per backend (IBM, AQT, IonQ, three Braket devices, Azure IonQ and Quantinuum): every gate x number of controls (which of them it declares available, and what is submitted for those), all '
        'programs up to a depth over its gate alphabet x qubit placements x measured qubits and orders x value of the random draw, result histograms, retrieved jobs, two runs on one engine with '
        'and without a failure of the first. A job is what reaches the service (HTTP session, boto3 client, Azure target); an independent reader turns it into a unitary. '
        'Non-trivial: at least two gates or a placement other than the identity')
ASSUMPTIONS = ['the services are stand-ins at the HTTP session / boto3 client / Azure target: they decode each job with their own gate tables and answer the results of that circuit',
               'measurements are the last operations on their qubits (these backends measure at the end of the job), and probabilities are asked for measured qubits',
               'AQT jobs carry angles with two decimals in units of pi',
               'Azure result formats follow the conventions of the installed azure-quantum SDK']
CHUNK = 4

MAPS = {'id': lambda i: i, 'rev': lambda i: 2 - i if i < 3 else i, 'cyc': lambda i: (i + 1) % 3, 'gap': lambda i: (3, 1, 4)[i] if i < 3 else i + 2}
ORDERS3 = [(), (0,), (2,), (0, 1), (1, 0), (2, 0), (0, 1, 2), (2, 0, 1), (1, 0, 2)]


# ---------------------------------------------------------------- configurations
def _cfgs():
    ibm = ['H0', 'H1', 'Rx0', 'Ry1', 'Rz0', 'CX01', 'CX10', 'CX12', 'CX20', 'B012']
    aqt = ['Rx0', 'Rx1', 'Ry0', 'Ry2', 'MS01', 'MS10', 'MS20', 'MS12', 'B01']
    ionq = ['X0', 'H0', 'H1', 'Rx0', 'Ry1', 'Rz2', 'Sd0', 'T1', 'V0', 'XX01', 'YY20', 'ZZ12', 'SW01', 'SW20', 'CX01', 'CX20', 'CCX201', 'B012']
    aws = ['H0', 'H1', 'Rx0', 'Ry1', 'Sd0', 'R1', 'SW20', 'CX01', 'CX20', 'CZ12', 'CCX201', 'CSW102', 'CR01', 'B012']
    quant = ['H0', 'H1', 'Rx0', 'Ry1', 'Sd0', 'T1', 'XX01', 'ZZ20', 'CX01', 'CX20', 'CZ12', 'CCX201', 'CCZ012', 'B012']
    return {
        'ibm': dict(svc='ibm', maps=['id', 'rev', 'cyc', 'gap', 'bounded'], letters=ibm, nqmax=32, dev='ibmq_qasm_simulator'),
        'ibm-hw': dict(svc='ibm', maps=['id', 'rev'], letters=ibm, nqmax=4, dev='ibmq_big', hw=True),
        'aqt': dict(svc='aqt', maps=['none', 'id', 'rev', 'cyc', 'gap', 'bounded'], letters=aqt, nqmax=11, dev='aqt_simulator'),
        'aqt-noise': dict(svc='aqt', maps=['none', 'rev'], letters=aqt, nqmax=11, dev='aqt_simulator_noise', hw=True),
        'aqt-hw': dict(svc='aqt', maps=['none', 'rev'], letters=aqt, nqmax=4, dev='aqt_device', hw=True),
        'ionq': dict(svc='ionq', maps=['bounded', 'id', 'rev', 'gap'], letters=ionq, nqmax=29, dev='simulator', name='ionq_simulator'),
        'ionq-hw': dict(svc='ionq', maps=['bounded', 'rev'], letters=ionq, nqmax=11, dev='qpu', name='ionq_qpu', hw=True),
        'aws-SV1': dict(svc='aws', maps=['none', 'rev', 'gap', 'bounded'], letters=aws + ['V0', 'CY21'], nqmax=30, dev='SV1'),
        'aws-Aspen-8': dict(svc='aws', maps=['none', 'rev'], letters=aws, nqmax=30, dev='Aspen-8', hw=True),
        'aws-IonQ': dict(svc='aws', maps=['none', 'rev'], letters=[x for x in aws if x not in ('R1', 'CR01', 'CZ12', 'CSW102', 'CCX201')] + ['V0'], nqmax=30, dev='IonQ Device', hw=True),
        'azure-ionq': dict(svc='azure', maps=['bounded', 'id', 'rev', 'gap'], letters=[x for x in ionq if not x.startswith('B')] + ['Vd1'], nqmax=29, dev='ionq.simulator'),
        'azure-quantinuum': dict(svc='azure', maps=['bounded', 'id', 'rev', 'gap'], letters=quant, nqmax=20, dev='quantinuum.sim.h1-1e'),
    }


CFGS = _cfgs()
QUICK = ['ibm', 'aqt', 'ionq', 'aws-SV1', 'azure-ionq', 'azure-quantinuum']


def service(cfg):
    return {'ibm': cloud.IBM, 'aqt': cloud.AQT, 'ionq': cloud.IonQ, 'aws': cloud.AWS, 'azure': cloud.Azure}[CFGS[cfg]['svc']]()


def shots_of(cfg):
    return 160 if CFGS[cfg]['svc'] == 'aqt' else 1024


def backend(cfg, svc, **kw):
    from projectq import backends as B

    c = CFGS[cfg]
    k = dict(num_runs=shots_of(cfg), interval=0, use_hardware=c.get('hw', False))
    k.update(kw)
    if c['svc'] == 'ibm':
        return B.IBMBackend(token='tok', device=c['dev'], **k)
    if c['svc'] == 'aqt':
        return B.AQTBackend(token='tok', **({'device': c['dev']} if c.get('hw') else {}), **k)
    if c['svc'] == 'ionq':
        return B.IonQBackend(token='tok', device=c['name'], **k)
    if c['svc'] == 'aws':
        return B.AWSBraketBackend(credentials={'AWS_ACCESS_KEY_ID': 'a', 'AWS_SECRET_KEY': 'b'}, s3_folder=['bucket', 'folder'], device=c['dev'], **k)
    return B.AzureQuantumBackend(workspace=svc.workspace(), target_name=c['dev'], **k)


def mapper(kind, nmax=29):
    from projectq.backends._ionq._ionq_mapper import BoundedQubitMapper
    from projectq.cengines import ManualMapper

    return [] if kind == 'none' else [BoundedQubitMapper(nmax)] if kind == 'bounded' else [ManualMapper(MAPS[kind])]


def letter(s):
    """-> gate, target positions, control positions, targets as one register each"""
    from projectq import ops as O

    q = [int(c) for c in s if c.isdigit()]
    n = s.rstrip('0123456789')
    G = dict(H=O.H, X=O.X, Y=O.Y, Z=O.Z, S=O.S, Sd=O.Sdag, T=O.T, Td=O.Tdag, V=O.SqrtX, Vd=O.get_inverse(O.SqrtX), Rx=O.Rx(0.37 * math.pi), Ry=O.Ry(-1.21 * math.pi), Rz=O.Rz(0.83 * math.pi),
             R=O.R(0.71), MS=O.Rxx(0.43 * math.pi), XX=O.Rxx(0.61), YY=O.Ryy(-0.37), ZZ=O.Rzz(2.9), SW=O.Swap, B=O.Barrier)
    nc = len(n) - len(n.lstrip('C'))
    return G[n[nc:]], q[nc:], q[:nc]


def apply(eng, s, q):
    from projectq.meta import Control

    g, t, c = letter(s)
    if s.startswith('B'):
        g | [q[i] for i in t]
    elif c:
        with Control(eng, [q[i] for i in c]):
            g | tuple(q[i] for i in t)
    else:
        g | tuple(q[i] for i in t)


def dense(ops, n):
    """ops as pq.op_of gives them (with control values), on n locations"""
    out = []
    for o in ops:
        if o[0] != 'u':
            continue
        neg = [c for c, v in zip(o[3], o[4]) if not v]
        out += [(ref.X, [c], []) for c in neg] + [(o[1], list(o[2]), list(o[3]))] + [(ref.X, [c], []) for c in neg]
    return cloud.unitary(out, n)


class Sys:
    """One engine on one backend on one stand-in service."""

    def __init__(self, cfg, mp, svc=None, chain=None, **kw):
        from projectq import MainEngine

        self.cfg, self.svc = cfg, svc or service(cfg)
        self.tap = pq.Recorder()
        self.be = backend(cfg, self.svc, **kw)
        self.eng = MainEngine(self.be, (mapper(mp) if chain is None else chain) + [self.tap])
        self.mark = 0

    def alloc(self, n):
        return [self.eng.allocate_qubit()[0] for _ in range(n)]

    def locations(self, q):
        m = self.eng.mapper.current_mapping if self.eng.mapper is not None else None
        return [m[x.id] if m is not None and x.id in m else x.id for x in q]

    def take(self):
        """reference ops submitted to the backend since the last call"""
        new = self.tap.cmds[self.mark:]
        self.mark = len(self.tap.cmds)
        return [o for o in (pq.op_of(c) for c in new) if o is not None]

    def close(self, *regs):
        sims.sink(self.eng)
        for r in regs:
            for x in r:
                x.id = -1


def marginal(dist, locs):
    out = {}
    for b, p in dist.items():
        k = ''.join(str(b[i]) for i in locs)
        out[k] = out.get(k, 0) + p
    return out


def check_job(ctx, where, job, ops, locs, cfg, meas, shots=None, tol=1e-6):
    """The decoded submission against the commands the backend received."""
    c = CFGS[cfg]
    bad = []
    used = {x for o in ops if o[0] == 'u' for x in list(o[2]) + list(o[3])} | set(meas)
    if used and job.nq <= max(used):
        return [f'{job.nq} qubits in the job, but location {max(used)} is used']
    if job.nq > c['nqmax']:
        bad.append(f'{job.nq} qubits in the job')
    if job.device != c['dev']:
        bad.append(f'submitted to {job.device}, not {c["dev"]}')
    if job.shots != (shots or shots_of(cfg)):
        bad.append(f'{job.shots} shots, not {shots or shots_of(cfg)}')
    if job.measure is not None:
        m = [x[0] if isinstance(x, tuple) else x for x in job.measure]
        if sorted(m) != sorted(meas):
            bad.append(f'measures locations {m}, not {meas}')
        if any(isinstance(x, tuple) for x in job.measure) and len({x[1] for x in job.measure}) != len(m):
            bad.append('two measurements into one bit')
    if not bad and not ref.same_op(job.unitary(), dense(ops, job.nq), up_to_phase=True, tol=tol):
        bad.append('the submitted circuit is not the circuit written')
    return bad


def registers(idx, full=True):
    idx = list(idx)
    out = []
    for k in range(1, len(idx) + 1):
        out += list(itertools.permutations(idx, k)) if full or k == len(idx) else [tuple(idx[:k])]
    return out


def check_results(ctx, s, q, locs, meas, dist, tol, full=True):
    """get_probabilities for every register of measured qubits, and the measured values, against the distribution over locations."""
    from projectq.cengines import NotYetMeasuredError

    bad = []
    for reg in registers(meas, full):
        want = marginal(dist, [locs[i] for i in reg])
        try:
            got = s.be.get_probabilities([q[i] for i in reg])
        except Exception as e:  # noqa
            bad.append(f'get_probabilities of qubits {reg}: {type(e).__name__} {e}')
            continue
        for k in set(got) | set(want):
            if len(k) != len(reg) or set(k) - {'0', '1'} or abs(got.get(k, 0) - want.get(k, 0)) > tol:
                bad.append(f'get_probabilities of qubits {reg}: {got}, expected {want}')
                break
        if hasattr(s.be, 'get_probability'):
            for b in itertools.product('01', repeat=len(reg)):
                k = ''.join(b)
                try:
                    p = s.be.get_probability(k, [q[i] for i in reg])
                except Exception as e:  # noqa
                    bad.append(f'get_probability({k}) of qubits {reg}: {type(e).__name__} {e}')
                    break
                if abs(p - want.get(k, 0)) > tol:
                    bad.append(f'get_probability({k}) of qubits {reg}: {p}, expected {want.get(k, 0)}')
                    break
    vals = []
    for i, x in enumerate(q):
        try:
            v = int(x)
            if i not in meas:
                bad.append(f'qubit {i} has the value {v} without a measurement')
            elif v not in (0, 1) or bool(x) != bool(v):
                bad.append(f'qubit {i} reads {v} / {bool(x)}')
        except NotYetMeasuredError:
            v = None
            if i in meas:
                bad.append(f'qubit {i} was measured but has no value')
        vals.append(v)
    got = ''.join(str(vals[i]) for i in meas)
    if meas and not bad and marginal(dist, [locs[i] for i in meas]).get(got, 0) <= 1e-12:
        bad.append(f'qubits {list(meas)} read {got}, an outcome the service did not report')
    return bad, got


def tol_of(cfg, dist, exact=False):
    return 1e-9 if exact or CFGS[cfg]['svc'] == 'ionq' or cfg == 'azure-ionq' else (len(dist) + 1) / shots_of(cfg)


def program(ctx, cfg, mp, letters, n, meas, u=0.5, hist=None, full=True, num_runs=None, svc=None, retrieve=None, sig=None):
    """One program, end to end.  Returns (job or None, outcome)."""
    svc = svc or service(cfg)
    svc.hist = hist
    kw = {}
    if num_runs:
        kw['num_runs'] = num_runs
    if retrieve:
        kw['retrieve_execution'] = retrieve
    where = sig or f'{cfg}/{mp}'
    from projectq.ops import Measure

    before = len(svc.jobs)
    with cloud.Quiet(), svc.patch(), cloud.rng(u) as calls:
        s = Sys(cfg, mp, svc, **kw)
        q = s.alloc(n)
        try:
            for x in letters:
                apply(s.eng, x, q)
            for i in meas:
                Measure | q[i]
            s.eng.flush()
            locs = s.locations(q)
            ctx.tr(len(letters) + len(meas) + 1)
            ctx.trace()
            ops = s.take()
            gates = [o for o in ops if o[0] == 'u' and not np.allclose(o[1], np.eye(len(o[1])))]
            bad, got = [], None
            ctx.state((cfg, tuple(letters), tuple(locs), tuple(meas)))
            if not retrieve and len(svc.jobs) - before != (1 if gates else min(1, len(svc.jobs) - before)):
                bad.append(f'{len(svc.jobs) - before} jobs submitted')
            elif retrieve and len(svc.jobs) != before:
                bad.append('a job was submitted when retrieving one')
            elif len(svc.jobs) > before or retrieve:
                job = svc.jobs[-1]
                if not retrieve:
                    bad = check_job(ctx, where, job, ops, locs, cfg, [locs[i] for i in meas], shots=num_runs)
                if not bad:
                    if hist:
                        c = svc.dist(job)
                        if CFGS[cfg]['svc'] in ('ibm', 'aqt', 'aws') or cfg == 'azure-quantinuum':
                            c = cloud.counts_of(c, job.shots)
                        tot = sum(c.values())
                        dist = {k: v / tot for k, v in c.items()}
                    else:
                        dist = job.dist()
                    bad, got = check_results(ctx, s, q, locs, meas, dist, tol_of(cfg, dist, hist is not None), full)
            ctx.outcome(f'{cfg} {len(letters)} gates')
            if len(gates) > 1 or mp not in ('id', 'none', 'bounded'):
                ctx.key((cfg, mp, tuple(letters), tuple(meas), u, bool(hist)))
            for b in bad[:2]:
                ctx.fail(f'{where}: {b.split(":")[0]}', f'{cfg}, placement {mp}, program {letters} on {n} qubits, measured {list(meas)}, draw {u}, num_runs {num_runs}, retrieve {retrieve}:\n{b}')
            return svc, got, calls[0], (bad and True)
        except Exception as e:  # noqa
            ctx.fail(f'{where}: {type(e).__name__}', f'{cfg}, placement {mp}, program {letters} on {n} qubits, measured {list(meas)}, draw {u}, retrieve {retrieve}: {type(e).__name__} {e}')
            return svc, None, 0, True
        finally:
            s.close(q)


# ---------------------------------------------------------------- which commands, and what is submitted for each
def gate_list():
    from projectq import ops as O
    from projectq.libs import math as M

    inv = O.get_inverse
    a = 0.37 * math.pi
    one = [O.H, O.X, O.Y, O.Z, O.S, O.T, O.Sdag, O.Tdag, O.SqrtX, inv(O.SqrtX), O.Rx(a), O.Ry(a), O.Rz(a), O.R(a), O.Ph(a), O.Rx(-a), O.R(-a), O.Rz(2.11 * math.pi), inv(O.Rx(a)),
           O.MatrixGate(ref.SQX)]
    two = [O.Swap, O.SqrtSwap, inv(O.SqrtSwap), O.Rxx(a), O.Ryy(a), O.Rzz(a), O.Rxx(-a), inv(O.Rzz(a))]
    out = [(g, 'q') for g in one] + [(g, s) for g in two for s in (('q,q',) if 'Swap' in str(g) else ('q,q', 'qq'))]
    out += [(O.QFT, 'qq'), (O.QFT, 'q'), (O.Entangle, 'qq'), (O.QubitOperator('X0 Z1', 1j), 'qq'), (O.QubitOperator('Y0'), 'q'), (O.TimeEvolution(0.3, O.QubitOperator('X0 X1')), 'qq'),
            (O.TimeEvolution(0.3, O.QubitOperator('X0')), 'q'), (O.FlipBits([1, 0]), 'qq'), (O.UniformlyControlledRy([0.1, 0.2]), 'q,q'), (M.AddConstant(1), 'qq'), (O.Barrier, 'q'), (O.Barrier, 'qq'), (O.Barrier, 'q,q')]
    return out


def run_avail(case, ctx):
    """Every gate with nc controls on the given placement: whatever is declared available is submitted as that gate."""
    from projectq.ops import BasicMathGate
    from projectq.meta import Control
    from projectq.types import Qureg

    _, cfg, nc, mp = case
    for gi, (g, shape) in enumerate(gate_list()):
        nt = shape.count('q')
        n = nt + nc
        for neg in ([0, 1] if nc else [0]):
            for rot in range(min(n, 3)):
                svc = service(cfg)
                with cloud.Quiet(), svc.patch(), cloud.rng(0.5):
                    s = Sys(cfg, mp, svc)
                    q = s.alloc(n)
                    order = q[rot:] + q[:rot]
                    if rot == 2:
                        order = order[::-1]
                    ctl, tg = order[:nc], order[nc:]
                    try:
                        cap = pq.Recorder()
                        s.tap.next_engine, keep = cap, s.tap.next_engine
                        s.tap.is_last_engine = False
                        cap.is_last_engine, cap.measure = True, None
                        arg = tuple(tg) if shape in ('q', 'q,q') else Qureg(tg)
                        if nc:
                            with Control(s.eng, ctl, ctrl_state='1' * (nc - 1) + '0' if neg else '1' * nc):
                                g | arg
                        else:
                            g | arg
                        cmd = cap.cmds[-1]
                        s.tap.next_engine = keep
                        ok = s.be.is_available(cmd)
                        ctx.tr()
                        ctx.outcome(f'{cfg} {"available" if ok else "not available"}')
                        ctx.state((cfg, gi, shape, nc, neg))
                        if not ok:
                            continue
                        op = pq.op_of(cmd)
                        where = f'{cfg}: {type(g).__name__} {str(g) if type(g).__name__ not in ("MatrixGate",) else ""} with {nc} controls{" (one negative)" if neg else ""}'
                        s.be.receive([cmd])
                        s.eng.flush()
                        locs = s.locations(q)
                        ctx.trace()
                        ident = np.allclose(op[1], np.eye(len(op[1]))) if op[0] == 'u' else False
                        if not svc.jobs:
                            if not ident:
                                ctx.fail(f'{where}: dropped', f'{pq.str_cmd(cmd)} is available but nothing was submitted')
                            continue
                        bad = check_job(ctx, where, svc.jobs[-1], [op], locs, cfg, [], tol=1e-6)
                        for b in bad[:1]:
                            ctx.fail(f'{where}: {b}', f'{pq.str_cmd(cmd)} -> {svc.jobs[-1].raw}')
                        ctx.key((cfg, gi, shape, nc, neg, rot))
                    except Exception as e:  # noqa
                        ctx.fail(f'{cfg}: {g!s:.30} with {nc} controls: {type(e).__name__}', f'gate {g!s} ({shape}) with {nc} controls, rot {rot}: {type(e).__name__} {e}')
                    finally:
                        s.close(q)


# ---------------------------------------------------------------- programs
def run_prog(case, ctx):
    _, cfg, mp, letters, orders = case
    n = 3
    for meas in ORDERS3 if orders == 'all' else [(0, 1, 2), (2, 0, 1)] if orders == 'two' else [(1, 2, 0)]:
        program(ctx, cfg, mp, letters, n, meas, full=orders == 'all')


GRID = [0.0] + [k / 8 + 1 / 16 for k in range(8)] + [1 - 2 ** -53]


def run_draw(case, ctx):
    """Measured values over a grid of random draws: one reported outcome each, and every likely one occurs."""
    _, cfg, mp, letters, meas = case
    seen, calls = {}, 0
    for u in GRID:
        svc, got, c, bad = program(ctx, cfg, mp, letters, 3, tuple(meas), u=u, full=False)
        calls += c
        if bad:
            return
        seen.setdefault(got, []).append(u)
    d = svc.jobs[-1].dist()
    # which location each measured qubit has does not depend on the draw
    s_locs = {'none': (0, 1, 2), 'bounded': (0, 1, 2)}.get(mp) or tuple(MAPS[mp](i) for i in range(3))
    want = marginal(d, [s_locs[i] for i in meas])
    if calls >= len(GRID):
        for k, p in want.items():
            if p >= 0.13 and k not in seen:
                ctx.fail(f'{cfg}/{mp}: outcome never drawn', f'{cfg}, placement {mp}, {letters}, measured {meas}: outcome {k} has probability {p:.3f} but no draw of {GRID} yields it: {seen}')
                break


HISTS = {
    'one': lambda n: [{b: 1.0} for b in itertools.product((0, 1), repeat=n)],
    'two': lambda n: [{a: 0.25, b: 0.75} for a, b in itertools.combinations(itertools.product((0, 1), repeat=n), 2)],
    'seven': lambda n: [{b: 1 / 7 for b in list(itertools.product((0, 1), repeat=n))[:7]}, {b: 1 / 7 for b in list(itertools.product((0, 1), repeat=n))[::-1][:7]}],
    'thirds': lambda n: [{b: 1 / 3 for b in itertools.islice(itertools.product((0, 1), repeat=n), k, 2 ** n, 3)} for k in range(3)],
}


def run_noise(case, ctx):
    """The service reports a histogram of its own (noise); placement of the bits and choice of the outcome."""
    _, cfg, mp, kind, meas = case
    maxloc = 3 if mp in ('none', 'bounded', 'id', 'rev', 'cyc') else 5
    for h in HISTS[kind](3):
        tot = sum(h.values())

        def hist(job, h=h, tot=tot):
            return {tuple(b) + (0,) * (job.nq - 3): p / tot for b, p in h.items()} if job.nq >= 3 else {}

        if maxloc == 5:
            def hist(job, h=h, tot=tot):  # noqa
                out = {}
                for b, p in h.items():
                    x = [0] * job.nq
                    for i, v in enumerate(b):
                        x[MAPS[mp](i)] = v
                    out[tuple(x)] = p / tot
                return out
        if CFGS[cfg]['svc'] == 'ibm':  # bits of qubits that are not measured read 0
            pass
        svc = CFGS[cfg]['svc']
        letters = {'ibm': ['H0', 'CX12'], 'aqt': ['Rx0', 'MS12']}.get(svc, ['H0', 'CX12'])
        for u in (0.0, 0.5, 1 - 2 ** -53):
            program(ctx, cfg, mp, letters, 3, tuple(meas), u=u, hist=hist, num_runs=84 if kind != 'two' else 100, full=u == 0.5)


def run_retr(case, ctx):
    """A job submitted by one engine and retrieved by another, whose num_runs differs."""
    _, cfg, mp, letters, meas, runs = case
    svc, _, _, bad = program(ctx, cfg, mp, letters, 3, tuple(meas), num_runs=100)
    if bad:
        return
    for u in (0.0, 0.3, 0.7, 1 - 2 ** -53):
        program(ctx, cfg, mp, letters, 3, tuple(meas), num_runs=runs, svc=svc, retrieve='arn:aws:braket:us-east-1:id:uuid' if CFGS[cfg]['svc'] == 'aws' else 'JOB', u=u, sig=f'{cfg} retrieve')


# ---------------------------------------------------------------- several runs on one engine
KINDS = ['flush', 'new', 'same', 'fewer', 'dead', 'failnew', 'failflush', 'failsame', 'dealloc', 'ancilla', 'three']


def run_runs(case, ctx):
    from projectq.ops import Measure

    _, cfg, mp, kind, p1, p2, m1, m2 = case
    svc = service(cfg)
    where = f'{cfg} {kind}'
    regs, more = [], []
    descr = f'{cfg}, placement {mp}, {kind}: {p1} measured {m1}, then {p2} measured {m2}'

    def go(s, letters, q, meas):
        for x in letters:
            apply(s.eng, x, q)
        for i in meas:
            Measure | q[i]
        s.eng.flush()
        ctx.tr(len(letters) + len(meas) + 1)

    def verify(s, q, meas, what, job, ops):
        locs = s.locations(q)
        want = [locs[i] for i in meas]  # the value of a qubit released before the job is sent may be measured or not
        bad = check_job(ctx, where, job, ops, locs, cfg, want + more)
        if bad and more:
            bad = check_job(ctx, where, job, ops, locs, cfg, want)
        if not bad:
            bad, _ = check_results(ctx, s, q, locs, meas, job.dist(), tol_of(cfg, job.dist()), False)
        for b in bad[:1]:
            ctx.fail(f'{where}: {what}: {b.split(":")[0]}', f'{descr}\n{what}: {b}')
        return not bad

    with cloud.Quiet(), svc.patch(), cloud.rng(0.5):
        s = Sys(cfg, mp, svc)
        q = s.alloc(3)
        regs.append(q)
        try:
            if kind in ('dealloc', 'ancilla'):  # qubits released (after a measurement) before the job is sent
                extra = s.alloc(1)
                regs.append(extra)
                apply(s.eng, [x for x in CFGS[cfg]['letters'] if x in ('X0', 'Rx0')][0], extra)
                if kind == 'ancilla':
                    more = s.locations(extra)
                    Measure | extra[0]
                del regs[-1], extra
            failing = kind.startswith('fail')
            if failing:
                import requests

                # every error the service may answer with; the engine must be usable afterwards
                svc.fail_next = requests.exceptions.ConnectionError('down') if CFGS[cfg]['svc'] in ('ibm', 'aqt') else RuntimeError('down')
            first_error = None
            try:
                go(s, p1, q, m1)
            except Exception as e:  # noqa
                first_error = e
                if not failing:
                    raise
            ops = s.take()
            ctx.trace()
            ctx.state((cfg, mp, kind, tuple(p1), tuple(p2), tuple(m1), tuple(m2)))
            ctx.key(case)
            if failing:
                if first_error is None:
                    ctx.fail(f'{where}: no error', f'{descr}: the service failed, but the run did not')
                    return
                first_error = None
                if svc.jobs:
                    ctx.fail(f'{where}: job', f'{descr}: a failed submission counts as a job')
                    return
            else:
                if len(svc.jobs) != 1:
                    ctx.fail(f'{where}: {len(svc.jobs)} jobs', f'{descr}: {len(svc.jobs)} jobs after the first run')
                    return
                if not verify(s, q, m1, 'first run', svc.jobs[0], ops):
                    return
            n1 = len(svc.jobs)
            ctx.outcome(f'{kind}')
            if kind in ('flush', 'failflush', 'dealloc', 'ancilla'):
                s.eng.flush()
                s.take()
                if len(svc.jobs) != n1:
                    ctx.fail(f'{where}: submitted again', f'{descr}: a flush without commands submits another job')
                elif not failing:
                    verify(s, q, m1, 'results after another flush', svc.jobs[0], ops)
                return
            if kind in ('new', 'failnew', 'three'):
                q2 = s.alloc(3)
            elif kind == 'fewer':
                q2 = s.alloc(2)
                p2 = [x for x in p2 if '2' not in x]
                m2 = [i for i in m2 if i != 2]
            elif kind == 'dead':
                for x in q:
                    del x
                while q:
                    q.pop()
                s.eng.flush()
                s.take()
                if len(svc.jobs) != n1:
                    ctx.fail(f'{where}: submitted again', f'{descr}: releasing qubits submits another job')
                    return
                q2 = s.alloc(3)
            else:
                q2 = q
            regs.append(q2)
            old = [int(x) if i in m1 else None for i, x in enumerate(q)] if q and not failing and q2 is not q else None
            go(s, p2, q2, m2)
            ops2 = s.take()
            gates = [o for o in ops2 if o[0] == 'u']
            if not gates:
                return
            if len(svc.jobs) != n1 + 1:
                ctx.fail(f'{where}: {len(svc.jobs) - n1} jobs', f'{descr}: {len(svc.jobs) - n1} jobs in the second run')
                return
            if q2 is q and any(i not in m2 for i in m1):
                m2v = None
            else:
                m2v = m2
            locs = s.locations(q2)
            bad = check_job(ctx, where, svc.jobs[-1], ops2, locs, cfg, [locs[i] for i in m2])
            if not bad and m2v is not None:
                bad, _ = check_results(ctx, s, q2, locs, m2, svc.jobs[-1].dist(), tol_of(cfg, svc.jobs[-1].dist()), False)
            for b in bad[:1]:
                ctx.fail(f'{where}: second run: {b.split(":")[0]}', f'{descr}\nsecond run: {b}')
            if not bad and old is not None:
                now = [int(x) if i in m1 else None for i, x in enumerate(q)]
                if now != old:
                    ctx.fail(f'{where}: earlier results changed', f'{descr}: the values of the first run changed from {old} to {now}')
            if kind == 'three' and not bad:
                q3 = s.alloc(3)
                regs.append(q3)
                go(s, p1, q3, m1)
                verify(s, q3, m1, 'third run', svc.jobs[-1], s.take())
        except Exception as e:  # noqa
            ctx.fail(f'{where}: {type(e).__name__}', f'{descr}: {type(e).__name__} {e}')
        finally:
            s.close(*regs)


# ---------------------------------------------------------------- whole setups
def run_setup(case, ctx):
    """The shipped compiler setup with its backend: from the program to the results."""
    from projectq import MainEngine
    from projectq.meta import Control
    from projectq.ops import QFT, All, C, CNOT, H, Measure, Ry, Swap, T, Toffoli, X, Z, Rz

    _, cfg, prog, meas = case
    svc = service(cfg)
    st = CFGS[cfg]['svc']
    tol = 0.2 if st == 'aqt' else 0.02
    with cloud.Quiet(), svc.patch(), cloud.rng(0.5):
        from projectq.setups import aqt, awsbraket, ibm, ionq

        if st == 'ibm':
            chain = ibm.get_engine_list(token='tok', device=CFGS[cfg]['dev'])
        elif st == 'aqt':
            chain = aqt.get_engine_list(token='tok', device=CFGS[cfg]['dev'])
        elif st == 'ionq':
            chain = ionq.get_engine_list(token='tok', device=CFGS[cfg]['name'])
        else:
            chain = awsbraket.get_engine_list(credentials={'AWS_ACCESS_KEY_ID': 'a', 'AWS_SECRET_KEY': 'b'}, device=CFGS[cfg]['dev'])
        be = backend(cfg, svc)
        eng = MainEngine(be, chain)
        q = eng.allocate_qureg(3)
        steps = {'ghz': [(H, [0], []), (X, [1], [0]), (X, [2], [1])], 'tof': [(X, [0], []), (H, [1], []), (X, [2], [0, 1])], 'rot': [(Ry(0.7), [0], []), (X, [2], [0]), (Ry(1.1), [1], []), (Rz(0.4), [1], []), (H, [1], [])],
                 'swap': [(X, [0], []), (Ry(0.9), [1], []), (Swap, [0, 2], []), (Z, [1], [2])], 'cc': [(H, [0], []), (T, [0], []), (H, [0], []), (X, [1], [0]), (Ry(0.5), [2], [1])]}[prog]
        for g, t, c in steps:
            with Control(eng, [q[i] for i in c]):
                g | tuple(q[i] for i in t)
        u = cloud.unitary([(pq.matrix_of(g), t, c) for g, t, c in steps], 3)
        dist = {tuple((x >> i) & 1 for i in range(3)): p for x, p in enumerate(np.abs(u[:, 0]) ** 2) if p > 1e-12}
        for i in meas:
            Measure | q[i]
        try:
            eng.flush()
            ctx.tr(len(steps))
            ctx.trace()
            ctx.key(case)
            ctx.state(case)
            ctx.outcome(f'setup {cfg}')

            class S:
                pass
            S.be = be
            bad, got = check_results(ctx, S, list(q), [0, 1, 2], tuple(meas), dist, tol, True)
            if len(svc.jobs) != 1:
                bad.append(f'{len(svc.jobs)} jobs')
            for b in bad[:2]:
                ctx.fail(f'setup {cfg}: {b.split(":")[0]}', f'{cfg} setup, program {prog}, measured {meas}: {b}')
        except Exception as e:  # noqa
            ctx.fail(f'setup {cfg}: {type(e).__name__}', f'{cfg} setup, {prog}: {type(e).__name__} {e}')
        finally:
            sims.sink(eng)
            for x in q:
                x.id = -1


# ---------------------------------------------------------------- angles
def run_angle(case, ctx):
    """Every angle of a grid reaches the service with its value (AQT: two decimals of pi)."""
    from projectq import ops as O

    _, cfg = case
    names = {'ibm': 'Rx Ry Rz', 'aqt': 'Rx Ry Rxx', 'ionq': 'Rx Ry Rz Rxx Ryy Rzz', 'aws': 'Rx Ry Rz R'}.get(CFGS[cfg]['svc']) or ('Rx Ry Rz Rxx Ryy Rzz')
    if cfg == 'aws-IonQ':
        names = 'Rx Ry Rz'
    vals = [k * math.pi / 8 for k in range(-33, 34)] + [1e-3, -1e-3, 1e-7, -1e-7, 1e-5, 3.0, 12.5, 100.0, 0.005 * math.pi, 0.995 * math.pi, 2 * math.pi - 1e-4, 1 / 3, 2 / 3]
    for nm in names.split():
        for a in vals:
            svc = service(cfg)
            with cloud.Quiet(), svc.patch(), cloud.rng(0.5):
                s = Sys(cfg, 'rev' if CFGS[cfg]['svc'] != 'aqt' else 'none', svc)
                q = s.alloc(2)
                try:
                    # a second gate, so that the job is not empty if the backend drops an identity
                    apply(s.eng, 'Rx0', q)
                    g = getattr(O, nm)(a)
                    g | (tuple(q) if len(nm) == 3 else q[1])
                    s.eng.flush()
                    ctx.tr(2)
                    ctx.trace()
                    ctx.state((cfg, nm, round(a, 9)))
                    ctx.key((cfg, nm, a))
                    ops = s.take()
                    locs = s.locations(q)
                    bad = check_job(ctx, cfg, svc.jobs[-1], ops, locs, cfg, [], tol=0.0051 * math.pi if CFGS[cfg]['svc'] == 'aqt' else 1e-6 if abs(a) > 1e-6 else 1e-9)
                    for b in bad:
                        ctx.fail(f'{cfg}: {nm} {b}', f'{nm}({a}): {b}: {svc.jobs[-1].raw}')
                except Exception as e:  # noqa
                    ctx.fail(f'{cfg}: {nm}: {type(e).__name__}', f'{nm}({a}): {type(e).__name__} {e}')
                finally:
                    s.close(q)


# ---------------------------------------------------------------- the printed program of the IBM backend
def run_qasm(case, ctx):
    """IBMBackend.get_qasm() denotes the submitted circuit."""
    _, mp, letters = case
    svc = service('ibm')
    from projectq.ops import Measure

    with cloud.Quiet(), svc.patch(), cloud.rng(0.5):
        s = Sys('ibm', mp, svc)
        q = s.alloc(3)
        try:
            for x in letters:
                apply(s.eng, x, q)
            for i in (1, 0):
                Measure | q[i]
            s.eng.flush()
            ctx.tr(len(letters) + 2)
            ctx.trace()
            ctx.key(case)
            ctx.state(case)
            job = svc.jobs[-1] if svc.jobs else None
            try:
                ops, meas = cloud.qasm_ops([x.strip() for x in s.be.get_qasm().split(';') if x.strip()])
                u = cloud.unitary(ops, job.nq)
            except cloud.Malformed as e:
                ctx.fail('get_qasm: malformed', f'{mp} {letters}: {e}')
                return
            locs = s.locations(q)
            if not ref.same_op(u, job.unitary(), up_to_phase=True, tol=1e-6):
                fixed, _ = cloud.qasm_ops([x.strip().replace('u2(0,pi/2)', 'u2(0,pi)') for x in s.be.get_qasm().split(';') if x.strip()])
                known = ref.same_op(cloud.unitary(fixed, job.nq), job.unitary(), up_to_phase=True, tol=1e-6)
                ctx.fail('get_qasm: H is printed as u2(0,pi/2)' if known else 'get_qasm: other circuit', f'{mp} {letters}: {s.be.get_qasm()}')
            if meas != [(locs[i], locs[i]) for i in (1, 0)]:
                ctx.fail('get_qasm: measurements', f'{mp} {letters}: {meas}')
        finally:
            s.close(q)


def cases(tier):
    T = tier != 'quick'
    out = []
    for cfg, c in CFGS.items():
        main = cfg in QUICK
        for nc in range(0, 4 if not T else 9):
            if cfg in ('ibm-hw', 'aqt-hw') and nc > 2:
                continue
            for mp in c['maps'][:1] if not T else c['maps'][:3]:
                out.append(['avail', cfg, nc, mp])
        if not T and CFGS[cfg]['svc'] in ('ionq', 'azure'):
            out += [['avail', cfg, nc, c['maps'][0]] for nc in (7, 8)]
        out.append(['angle', cfg])
        for mp in c['maps']:
            out.append(['prog', cfg, mp, [], 'all'])
            for a in c['letters']:
                out.append(['prog', cfg, mp, [a], 'all' if main or T else 'two'])
        for mp in c['maps'] if main or T else c['maps'][1:2]:
            for a, b in itertools.product(c['letters'], repeat=2):
                out.append(['prog', cfg, mp, [a, b], 'all' if T else 'one'])
        if T and main:
            for p in itertools.product(c['letters'], repeat=3):
                out.append(['prog', cfg, c['maps'][1], list(p), 'two'])
        L = c['letters']
        e = [x for x in L if x in ('H0', 'CX01', 'CX20', 'Rx0', 'MS01', 'MS20', 'Ry1', 'H1', 'CX12')]
        for mp in c['maps'] if main or T else c['maps'][:1]:
            for p in itertools.chain(itertools.combinations(e, 2), itertools.permutations(e, 3) if T else [tuple(e[:3]), tuple(e[-3:])]):
                for meas in ([0, 1, 2], [2, 0]) if T else ([2, 0, 1],):
                    out.append(['draw', cfg, mp, list(p), meas])
            if not cfg.endswith('-hw') or T:
                for kind in HISTS:
                    for meas in ([0, 1, 2], [2, 0, 1]) if T else ([2, 0, 1],):
                        out.append(['noise', cfg, mp, kind, meas])
            for meas in ([0, 1, 2], [2, 0], [1]):
                for runs in (100, 50, 180):
                    out.append(['retr', cfg, mp, e[:2], meas, runs])
            for kind in KINDS:
                if kind in ('dealloc', 'ancilla') and mp == 'cyc' or c['nqmax'] == 4 and kind not in ('flush', 'same', 'failflush', 'failsame', 'dealloc', 'ancilla'):
                    continue
                for p1, p2 in ((e[:2], e[-2:]), (e[-1:], e[:1]), (e[:1], e[:3])) if T or main else ((e[:2], e[-2:]),):
                    for m1, m2 in (([0, 1, 2], [0, 1, 2]), ([0], [2, 1]), ([2, 1], [0, 1]), ([1], [0]), ([], [1, 0])):
                        out.append(['runs', cfg, mp, kind, p1, p2, m1, m2])
    for cfg in ('ibm', 'aqt', 'ionq', 'aws-SV1', 'aws-Aspen-8', 'aws-IonQ'):
        for p in ('ghz', 'tof', 'rot', 'swap', 'cc'):
            for meas in ([0, 1, 2], [2, 0], [1]):
                out.append(['setup', cfg, p, meas])
    for mp in CFGS['ibm']['maps']:
        for a in CFGS['ibm']['letters']:
            if not a.startswith('B'):
                out.append(['qasm', mp, [a]])
            for b in ('H0', 'CX20', 'Rz0', 'B012'):
                if not (a + b).startswith('B'):
                    out.append(['qasm', mp, [a, b]])
    return out


def run(case, ctx):
    globals()['run_' + case[0]](case, ctx)
