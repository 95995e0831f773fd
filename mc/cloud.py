"""Stand-ins for the cloud services at their outer boundary (HTTP session, boto3 client, Azure SDK target): they decode what is submitted and answer as the service would.

A service keeps `jobs` (decoded submissions) and answers results computed from the decoded circuit, or from `hist` (a function of the job giving {bits by qubit location: weight})."""
import contextlib
import io
import json
import math
import re
import sys

import numpy as np

I2 = np.eye(2, dtype=complex)
X = np.array([[0, 1], [1, 0]], dtype=complex)
Y = np.array([[0, -1j], [1j, 0]], dtype=complex)
Z = np.diag([1, -1]).astype(complex)
H = np.array([[1, 1], [1, -1]], dtype=complex) / math.sqrt(2)
S = np.diag([1, 1j])
T = np.diag([1, np.exp(1j * math.pi / 4)])
V = 0.5 * np.array([[1 + 1j, 1 - 1j], [1 - 1j, 1 + 1j]])
SWAP = np.array([[1, 0, 0, 0], [0, 0, 1, 0], [0, 1, 0, 0], [0, 0, 0, 1]], dtype=complex)


def rot(P, a):
    return math.cos(a / 2) * np.eye(len(P)) - 1j * math.sin(a / 2) * P


def ph(a):
    return np.diag([1, np.exp(1j * a)])


def u3(t, p, l):
    return np.array([[math.cos(t / 2), -np.exp(1j * l) * math.sin(t / 2)], [np.exp(1j * p) * math.sin(t / 2), np.exp(1j * (p + l)) * math.cos(t / 2)]])


XX, YY, ZZ = np.kron(X, X), np.kron(Y, Y), np.kron(Z, Z)


class Malformed(Exception):
    """The submission is not a valid job for the service."""


def unitary(ops, n):
    """ops: (matrix, targets (first = least significant), controls); basis index bit i = qubit i."""
    N = 1 << n
    u = np.eye(N, dtype=complex)
    for m, t, c in ops:
        if len(set(t + c)) != len(t + c):
            raise Malformed(f'a gate uses a qubit twice: {t} {c}')
        if any(not 0 <= q < n for q in t + c):
            raise Malformed(f'gate on qubits {t + c} in a job with {n} qubits')
        k = len(t)
        if m.shape != (1 << k, 1 << k):
            raise Malformed(f'gate on {k} qubits {t}')
        cm = sum(1 << q for q in c)
        tm = sum(1 << q for q in t)
        new = u.copy()
        for b in range(N):
            if b & tm or b & cm != cm:
                continue
            rows = [b | sum(((j >> i) & 1) << t[i] for i in range(k)) for j in range(1 << k)]
            new[rows] = m @ u[rows]
        u = new
    return u


class Job:
    def __init__(self, device, nq, ops, measure, shots, raw=None):
        self.device, self.nq, self.ops, self.measure, self.shots, self.raw = device, nq, ops, measure, shots, raw
        self._u = None

    def unitary(self):
        if self._u is None:
            self._u = unitary(self.ops, self.nq)
        return self._u

    def dist(self):
        """{bits by location: probability} of the final state"""
        p = np.abs(self.unitary()[:, 0]) ** 2
        return {tuple((x >> i) & 1 for i in range(self.nq)): float(p[x]) for x in range(1 << self.nq) if p[x] > 1e-12}


def counts_of(dist, shots):
    """Integer counts with the same total as shots (largest remainders)."""
    c = {k: int(math.floor(p * shots + 1e-9)) for k, p in dist.items()}
    rest = shots - sum(c.values())
    for k in sorted(dist, key=lambda k: dist[k] * shots - c[k], reverse=True)[:max(0, rest)]:
        c[k] += 1
    return {k: v for k, v in c.items() if v}


class Service:
    def __init__(self, hist=None):
        self.jobs, self.hist, self.log = [], hist, []
        self.fail_next = None  # exception to raise at the next submission

    def dist(self, job):
        return self.hist(job) if self.hist else job.dist()

    def submit(self, job):
        if self.fail_next is not None:
            e, self.fail_next = self.fail_next, None
            raise e
        for m, t, c in job.ops:  # validation
            unitary([(m, t, c)], job.nq) if job.nq <= 4 else [None for q in t + c if not 0 <= q < job.nq and (_ for _ in ()).throw(Malformed(f'gate on {t + c} in a job with {job.nq} qubits'))]
        self.jobs.append(job)


class Resp:
    def __init__(self, js, code=200):
        self._js, self.status_code, self.text = js, code, json.dumps(js)

    def json(self):
        return json.loads(json.dumps(self._js))

    def raise_for_status(self):
        import requests

        if self.status_code >= 400:
            raise requests.exceptions.HTTPError(f'{self.status_code}', response=self)


class _Http:
    """Patches requests.Session get/post/put (however the client calls them)."""

    def __init__(self, handler):
        self.h = handler

    def __enter__(self):
        import requests

        self.old = {m: getattr(requests.sessions.Session, m) for m in ('get', 'post', 'put', 'request')}
        h = self.h

        def mk(m):
            def f(self_, url, *a, **k):
                names = {'get': (), 'post': ('data', 'json'), 'put': ('data',)}[m]
                k.update(zip(names, a))
                return h(m, url, k, self_)
            return f
        for m in ('get', 'post', 'put'):
            setattr(requests.sessions.Session, m, mk(m))
        requests.sessions.Session.request = lambda s, method, url, *a, **k: h(method.lower(), url, k, s)
        return self

    def __exit__(self, *a):
        import requests

        for m, f in self.old.items():
            setattr(requests.sessions.Session, m, f)


# ---------------------------------------------------------------- IBM
class IBM(Service):
    name = 'ibm'
    AUTH = 'users/loginWithToken'
    devices = {'ibmq_qasm_simulator': 32, 'ibmq_big': 4}

    def patch(self):
        return _Http(self.handle)

    def decode(self, data, device):
        d = json.loads(data)
        e = d['experiments'][0]
        n = d['config']['n_qubits']
        if not n == e['config']['n_qubits'] == e['header']['n_qubits'] == d['config']['memory_slots'] == e['config']['memory_slots'] == e['header']['memory_slots']:
            raise Malformed('numbers of qubits differ')
        if e['header']['qubit_labels'] != [['q', i] for i in range(n)] or e['header']['qreg_sizes'] != [['q', n]] or e['header']['clbit_labels'] != [['c', i] for i in range(n)] or e['header']['creg_sizes'] != [['c', n]]:
            raise Malformed('labels')
        if d['header']['backend_name'] != device:
            raise Malformed('device names differ')
        ops, meas = [], []
        for i in e['instructions']:
            nm, q, p = i['name'], i['qubits'], i.get('params', [])
            if nm == 'cx':
                ops.append((X, [q[1]], [q[0]]))
            elif nm == 'u1':
                ops.append((ph(*p), q, []))
            elif nm == 'u2':
                ops.append((u3(math.pi / 2, *p), q, []))
            elif nm == 'u3':
                ops.append((u3(*p), q, []))
            elif nm == 'barrier':
                pass
            elif nm == 'measure':
                if len(q) != len(i['memory']):
                    raise Malformed('measurement')
                meas += list(zip(q, i['memory']))
                continue
            else:
                raise Malformed(f'instruction {nm}')
            if nm != 'barrier' and any(x in [a for a, _ in meas] for x in q):
                raise Malformed('gate after measurement')
        return Job(device, n, ops, meas, d['config']['shots'], d)

    def handle(self, method, url, kw, session):
        self.log.append((method, url))
        if method == 'post' and url.endswith(self.AUTH):
            return Resp({'id': 'tok'})
        if method == 'get' and url.endswith('/devices/v/1'):
            return Resp([{'backend_name': k, 'n_qubits': v, 'coupling_map': None, 'backend_version': '1.0'} for k, v in self.devices.items()])
        if method == 'post' and url.endswith('/Jobs'):
            self.device = kw['json']['backend']['name']
            return Resp({'id': 'JOB', 'objectStorageInfo': {'uploadUrl': 'http://up/load'}})
        if method == 'put' and url == 'http://up/load':
            self.pending = self.decode(kw['data'], self.device)
            self.submit(self.pending)
            return Resp({})
        if method == 'post' and url.endswith('jobDataUploaded'):
            return Resp({})
        if method == 'get' and url.endswith('/resultDownloadUrl'):
            return Resp({'url': 'http://res/ult'})
        if method == 'get' and url == 'http://res/ult':
            return Resp({'results': [self.result(self.jobs[-1])]})
        if method == 'post' and url.endswith('resultDownloaded'):
            return Resp({})
        if method == 'get' and '/Jobs/' in url:
            return Resp({'status': 'COMPLETED'})
        raise Malformed(f'{method} {url}')

    def result(self, job):
        c = {}
        for bits, v in counts_of(self.dist(job), job.shots).items():
            x = sum(bits[q] << m for q, m in dict(job.measure).items())
            c[x] = c.get(x, 0) + v
        return {'data': {'counts': {hex(k): v for k, v in sorted(c.items())}}}


# ---------------------------------------------------------------- AQT
class AQT(Service):
    name = 'aqt'

    def patch(self):
        return _Http(self.handle)

    def handle(self, method, url, kw, session):
        self.log.append((method, url))
        d = kw['data']
        if method != 'put' or not url.startswith('https://gateway.aqt.eu/marmot/'):
            raise Malformed(f'{method} {url}')
        device = {'sim/': 'aqt_simulator', 'sim/noise-model-1': 'aqt_simulator_noise', 'lint/': 'aqt_device'}[url[len('https://gateway.aqt.eu/marmot/'):]]
        if 'data' in d:
            ops = []
            for nm, a, q in json.loads(d['data']):
                if nm in 'XY':
                    ops.append((rot(X if nm == 'X' else Y, a * math.pi), q, []))
                elif nm == 'MS':
                    ops.append((rot(XX, a * math.pi), q, []))
                else:
                    raise Malformed(nm)
            self.submit(Job(device, d['no_qubits'], ops, None, d['repetitions'], d))
            return Resp({'status': 'queued', 'id': 'JOB'})
        job = self.jobs[-1]
        out = []
        for bits, v in counts_of(self.dist(job), job.shots).items():
            out += [sum(b << i for i, b in enumerate(bits))] * v
        return Resp({'status': 'finished', 'samples': out})


# ---------------------------------------------------------------- IonQ
class IonQ(Service):
    name = 'ionq'

    def patch(self):
        return _Http(self.handle)

    GATES = {'x': X, 'y': Y, 'z': Z, 'h': H, 's': S, 'si': S.conj(), 't': T, 'ti': T.conj(), 'v': V, 'vi': V.conj().T, 'swap': SWAP}
    ROT = {'rx': X, 'ry': Y, 'rz': Z, 'xx': XX, 'yy': YY, 'zz': ZZ}

    @classmethod
    def circuit(cls, circuit):
        ops = []
        for g in circuit:
            nm = g['gate']
            if nm in cls.ROT:
                m = rot(cls.ROT[nm], g['rotation'])
            elif nm in cls.GATES:
                if 'rotation' in g:
                    raise Malformed(f'{nm} with an angle')
                m = cls.GATES[nm]
            else:
                raise Malformed(f'gate {nm}')
            if set(g) - {'gate', 'targets', 'controls', 'rotation'}:
                raise Malformed(str(g))
            ops.append((m, g['targets'], g.get('controls', [])))
        return ops

    def handle(self, method, url, kw, session):
        self.log.append((method, url))
        if url.endswith('/backends'):
            return Resp([{'backend': 'qpu', 'qubits': 11}, {'backend': 'simulator', 'qubits': 29}])
        if method == 'post' and url.endswith('/jobs'):
            d = json.loads(json.dumps(kw['json']))
            job = Job(d['target'], d['body']['qubits'], self.circuit(d['body']['circuit']), d['registers']['meas_mapped'], d['shots'], d)
            if any(not 0 <= q < job.nq for q in job.measure) or len(set(job.measure)) != len(job.measure):
                raise Malformed(f'measured {job.measure} of {job.nq} qubits')
            self.submit(job)
            return Resp({'status': 'ready', 'id': 'JOB'})
        if method == 'get' and url.endswith('/jobs/JOB'):
            job = self.jobs[-1]
            p = {}
            for bits, v in self.dist(job).items():
                x = sum(bits[q] << k for k, q in enumerate(job.measure))
                p[x] = p.get(x, 0) + v
            return Resp({'status': 'completed', 'id': 'JOB', 'qubits': job.nq, 'registers': {'meas_mapped': job.measure}, 'metadata': job.raw['metadata'],
                         'data': {'registers': {'meas_mapped': {str(k): v for k, v in sorted(p.items())}}}})
        raise Malformed(f'{method} {url}')


# ---------------------------------------------------------------- AWS Braket
class AWS(Service):
    name = 'aws'
    TYPES = {'SV1': 'SIMULATOR', 'Aspen-8': 'QPU', 'IonQ Device': 'QPU'}
    QUBITS = 30

    GATES = {'x': X, 'y': Y, 'z': Z, 'h': H, 's': S, 'si': S.conj(), 't': T, 'ti': T.conj(), 'v': V, 'vi': V.conj().T, 'swap': SWAP, 'cnot': X, 'ccnot': X, 'cz': Z, 'cy': Y, 'cswap': SWAP}
    ROT = {'rx': lambda a: rot(X, a), 'ry': lambda a: rot(Y, a), 'rz': lambda a: rot(Z, a), 'phaseshift': ph, 'cphaseshift': ph}
    NC = {'cnot': 1, 'ccnot': 2, 'cz': 1, 'cy': 1, 'cswap': 1, 'cphaseshift': 1}

    def patch(self):
        svc = self

        class P:
            def __enter__(s):
                import boto3

                s.old = boto3.client
                boto3.client = lambda name, *a, **k: svc.client(name, *a, **k)
                return s

            def __exit__(s, *a):
                import boto3

                boto3.client = s.old
        return P()

    def client(self, name, *a, **k):
        svc = self

        class Client:
            def search_devices(self, filters=(), **kw):
                return {'devices': [] if k.get('region_name') != 'us-east-1' else [{'deviceArn': 'arn:' + d, 'deviceName': d, 'deviceType': t, 'deviceStatus': 'ONLINE', 'providerName': 'p'} for d, t in svc.TYPES.items()]}

            def get_device(self, deviceArn, **kw):
                d = deviceArn[4:]
                cap = {'braketSchemaHeader': {'name': 'n', 'version': '1'}, 'paradigm': {'qubitCount': svc.QUBITS, 'connectivity': {'fullyConnected': True, 'connectivityGraph': {}}},
                       'deviceParameters': {'properties': {'braketSchemaHeader': {'const': {'name': 'dp', 'version': '1'}}},
                                            'definitions': {'GateModelParameters': {'properties': {'braketSchemaHeader': {'const': {'name': 'gm', 'version': '1'}}}}}}}
                return {'deviceName': d, 'deviceType': svc.TYPES[d], 'deviceCapabilities': json.dumps(cap)}

            def create_quantum_task(self, action, deviceArn, deviceParameters, outputS3Bucket, outputS3KeyPrefix, shots, **kw):
                d = json.loads(action)
                if d['braketSchemaHeader'] != {'name': 'braket.ir.jaqcd.program', 'version': '1'}:
                    raise Malformed('schema')
                ops = []
                for g in d['instructions']:
                    nm = g['type']
                    if nm not in svc.GATES and nm not in svc.ROT:
                        raise Malformed(f'gate {nm}')
                    c = g['controls'] if 'controls' in g else [g['control']] if 'control' in g else []
                    t = g['targets'] if 'targets' in g else [g['target']]
                    if len(c) != svc.NC.get(nm, 0):
                        raise Malformed(f'{nm} with {len(c)} controls')
                    if ('angle' in g) != (nm in svc.ROT):
                        raise Malformed(f'{nm} angle')
                    ops.append((svc.ROT[nm](g['angle']) if nm in svc.ROT else svc.GATES[nm], t, c))
                n = json.loads(deviceParameters)['paradigmParameters']['qubitCount']
                svc.submit(Job(deviceArn[4:], n, ops, None, shots, (d, outputS3Bucket, outputS3KeyPrefix)))
                return {'quantumTaskArn': 'arn:aws:braket:us-east-1:id:uuid'}

            def get_quantum_task(self, quantumTaskArn, **kw):
                return {'status': 'COMPLETED', 'outputS3Bucket': svc.jobs[-1].raw[1], 'outputS3Directory': 'dir', 'deviceArn': 'arn:' + svc.jobs[-1].device}

            def get_object(self, Bucket, Key, **kw):
                job = svc.jobs[-1]
                p = svc.dist(job)
                ms = []
                for bits, v in counts_of(p, job.shots).items():
                    ms += [list(bits)] * v
                r = {'measurementProbabilities': {''.join(map(str, b)): v for b, v in p.items()}, 'measurements': ms, 'measuredQubits': list(range(job.nq))}
                return {'Body': io.BytesIO(json.dumps(r).encode())}
        return Client()


# ---------------------------------------------------------------- Azure
class Azure(Service):
    name = 'azure'

    def patch(self):
        svc = self

        class P:
            def __enter__(s):
                from azure.quantum.target import target_factory as tf

                s.tf, s.old = tf.TargetFactory, tf.TargetFactory.get_targets
                tf.TargetFactory.get_targets = lambda self_, name=None, provider_id=None, **k: FakeTarget(svc, name, provider_id)
                return s

            def __exit__(s, *a):
                s.tf.get_targets = s.old
        return P()

    def workspace(self):
        svc = self

        class W:
            name = 'w'

            def append_user_agent(self, *_):
                pass

            def get_job(self, job_id):
                return FakeJob(svc, svc.jobs[-1])
        return W()


class FakeJob:
    id = 'JOB'

    def __init__(self, svc, job):
        self.svc, self.job = svc, job

    def get_results(self, timeout_secs=None):
        job = self.job
        p = self.svc.dist(job)
        if job.device.startswith('ionq'):
            # as the SDK's own readers take it: integer over all qubits, bit i = qubit i
            out = {}
            for bits, v in p.items():
                out[str(sum(b << i for i, b in enumerate(bits)))] = v
            return {'histogram': out}
        out = []
        for bits, v in counts_of(p, job.shots).items():
            c = [0] * job.ncl
            for q, m in job.measure:
                c[m] = bits[q]
            out += [''.join(map(str, reversed(c)))] * v
        return {'c': out}


class FakeTarget:
    def __init__(self, svc, name, provider):
        self.svc, self.name, self.provider = svc, name, provider
        self.current_availability = 'Available'
        self.average_queue_time = 0
        self.workspace = svc.workspace()

    def submit(self, circuit=None, num_shots=None, **kw):
        d = kw.get('input_data', circuit)
        if self.provider == 'ionq':
            d = json.loads(json.dumps(d))
            md = kw.get('metadata', {})
            job = Job(self.name, d['qubits'], IonQ.circuit(d['circuit']), list(md.get('meas_map', [])), num_shots, (d, kw))
        else:
            job = qasm(d, self.name, num_shots)
        self.svc.submit(job)
        return FakeJob(self.svc, job)


QASM = {'h': H, 'x': X, 'y': Y, 'z': Z, 's': S, 'sdg': S.conj(), 't': T, 'tdg': T.conj(), 'cx': X, 'cz': Z, 'ccx': X, 'ccz': Z, 'rx': X, 'ry': Y, 'rz': Z, 'rxx': XX, 'ryy': YY, 'rzz': ZZ,
        'u1': ph, 'u2': lambda a, b: u3(math.pi / 2, a, b), 'u3': u3}


def qasm_ops(lines):
    ops, meas = [], []
    for ln in lines:
        m = re.match(r'measure q\[(\d+)\] -> c\[(\d+)\]$', ln)
        if m:
            meas.append((int(m.group(1)), int(m.group(2))))
            continue
        m = re.match(r'(\w+)\s*(?:\(([^()]*)\))?\s+(.*)$', ln)
        if not m or (m.group(1) not in QASM and m.group(1) != 'barrier'):
            raise Malformed(f'line {ln!r}')
        nm, par, args = m.groups()
        q = [int(re.match(r'q\[(\d+)\]$', a.strip()).group(1)) for a in args.split(',')]
        if nm == 'barrier':
            continue
        if any(x in [a for a, _ in meas] for x in q):
            raise Malformed('gate after measurement')
        par = [eval(p, {'pi': math.pi, '__builtins__': {}}) for p in par.split(',')] if par else []  # noqa
        g = QASM[nm]
        if callable(g):
            mat, nc = g(*par), 0
        elif nm.startswith('r'):
            mat, nc = rot(g, *par), 0
        else:
            if par:
                raise Malformed(f'{nm} with parameters')
            mat, nc = g, len(nm) - len(nm.lstrip('c'))
        ops.append((mat, q[nc:], q[:nc]))
    return ops, meas


def qasm(text, device, shots):
    st = [x.strip() for x in text.replace('\n', ' ').split(';')]
    if st[0] != 'OPENQASM 2.0' or st[1] != 'include "qelib1.inc"' or st[-1] != '':
        raise Malformed('QASM header')
    m1, m2 = re.match(r'qreg q\[(\d+)\]$', st[2]), re.match(r'creg c\[(\d+)\]$', st[3])
    if not m1 or not m2:
        raise Malformed('registers')
    ops, meas = qasm_ops(st[4:-1])
    job = Job(device, int(m1.group(1)), ops, meas, shots, text)
    job.ncl = int(m2.group(1))
    if any(not 0 <= q < job.nq or not 0 <= c < job.ncl for q, c in meas):
        raise Malformed('measurement')
    return job


class Quiet:
    def __enter__(self):
        self.old = sys.stdout
        sys.stdout = io.StringIO()
        return self

    def __exit__(self, *a):
        sys.stdout = self.old


@contextlib.contextmanager
def rng(u):
    """Every random choice of the code under test is the value u."""
    import random

    calls = [0]
    old, oldc = random.random, np.random.choice

    def rnd():
        calls[0] += 1
        return u

    def choice(a, size=None, replace=True, p=None):
        calls[0] += 1
        a = list(a) if not isinstance(a, int) else list(range(a))
        p = [1 / len(a)] * len(a) if p is None else list(p)
        if abs(sum(p) - 1) > 1.5e-8:
            raise ValueError('probabilities do not sum to 1')
        if any(x < 0 for x in p):
            raise ValueError('probabilities are not non-negative')
        s = 0.0
        for v, w in zip(a, p):
            s += w / sum(p)
            if u < s:
                return v
        return [v for v, w in zip(a, p) if w][-1]
    random.random, np.random.choice = rnd, choice
    try:
        yield calls
    finally:
        random.random, np.random.choice = old, oldc
