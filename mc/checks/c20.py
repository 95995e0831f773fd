"""C20: job clients of the cloud backends - every conversation with the service, up to a bound."""
import getpass
import io
import json
import os
import signal
import time

from mc import cloud

ID = 'C20'
RULE = ('all conversations between a client (IBM, AQT, IonQ, AWS Braket, Azure; called directly and through its backend) and its service, explored depth first by re-execution: at every request of the '
        'real code the service answers with every letter of its alphabet (regular answers, each job status, HTTP/SDK errors, timeouts, broken connections, malformed answers), and an interrupt (SIGINT) '
        'may arrive during every request and every sleep. Sending and retrieving, number of retries 0-4, kinds of user interrupt handlers, device names and sizes. '
        'Non-trivial: a conversation with at least one answer that is not the regular one')
ASSUMPTIONS = ['the services are stand-ins at the HTTP session / boto3 client / Azure SDK target; job statuses are those of the documented service interfaces',
               'an error answer carries no result, and an answer for an unfinished job carries no samples',
               'time.sleep and getpass.getpass are replaced']
CHUNK = 1
CASE_TIMEOUT = 600
MAXRUNS = 400000


class Choices:
    """Depth-first enumeration of choice sequences by re-execution."""

    def __init__(self, prefix=()):
        self.fixed, self.path, self.n = len(prefix), list(prefix), []

    def start(self):
        self.pos = 0

    def pick(self, k):
        if self.pos == len(self.path):
            self.path.append(0)
            self.n.append(k)
        elif self.pos == len(self.n):
            self.n.append(k)
        if self.n[self.pos] != k:
            raise AssertionError('the conversation is not reproducible')
        c = self.path[self.pos]
        self.pos += 1
        return c

    def next(self):
        del self.path[self.pos:], self.n[self.pos:]
        while len(self.path) > self.fixed and self.path[-1] + 1 >= self.n[-1]:
            self.path.pop()
            self.n.pop()
        if len(self.path) <= self.fixed:
            return False
        self.path[-1] += 1
        return True


HTTP = ['400', '401', '404', '500', 'conn', 'timeout', 'nokeys', 'nojson', 'int']


class Script:
    """One conversation. log: (point, answer); sleeps: seconds."""

    JOB = 'job-17'
    ANSWERS = ['tok']

    def __init__(self, ch, rich, running, failed, status_stop=None):
        self.ch, self.rich, self.running, self.failed = ch, rich, running, failed
        self.log, self.sleeps, self.problems, self.submitted, self.polls, self.prompts = [], [], [], [], 0, 0
        self.served = None
        self.sleep_int = True

    def ask(self, point, options):
        """The answer at this point."""
        a = options[self.ch.pick(len(options))]
        self.log.append((point, a))
        if a == 'int':
            os.kill(os.getpid(), signal.SIGINT)
            for _ in range(3):
                pass
            return options[0]
        return a

    def sleep(self, t):
        self.sleeps.append(t)
        if len(self.sleeps) > 200:
            raise AssertionError('sleeps without end')
        if self.rich and self.sleep_int and self.ask('sleep', ['ok', 'int']):
            pass

    def prompt(self, *a, **k):
        self.prompts += 1
        return self.ANSWERS[(self.prompts - 1) % len(self.ANSWERS)]

    def statuses(self):
        return list(self.running) + list(self.failed)

    # ------------------------------------------------------------ HTTP
    def http(self, point, js, options=(), body=True):
        """A request: options are further regular answers (functions giving the JSON)."""
        a = self.ask(point, ['ok'] + list(options) + ([x for x in HTTP if body or x not in ('nokeys', 'nojson')] if self.rich else ['500']))
        import requests

        if a == 'conn':
            raise requests.exceptions.ConnectionError('broken connection')
        if a == 'timeout':
            raise requests.exceptions.Timeout('no answer')
        if a in ('400', '401', '404', '500'):
            return cloud.Resp({'error': 'Bad thing', 'message': 'it is bad'}, int(a))
        if a == 'nokeys':
            return cloud.Resp({'unexpected': 1})
        if a == 'nojson':
            r = cloud.Resp({})
            r.text = '<html>'

            def bad():
                raise requests.exceptions.JSONDecodeError('no JSON', '<html>', 0)
            r.json = bad
            return r
        return cloud.Resp(js(a))

    def bad(self, what):
        self.problems.append(what)


# ---------------------------------------------------------------- the services
class IBM(Script):
    device, other, nq = 'ibmq_lima', 'ibmq_big', 3
    RUN = ['VALIDATING', 'VALIDATED', 'RUNNING', 'QUEUED', 'CREATING', 'CREATED']
    FAIL = ['CANCELLED', 'ERROR_RUNNING_JOB', 'ERROR_VALIDATING_JOB']
    TIMEOUT = Exception

    def handle(self, method, url, kw, session):
        tok = session.params.get('access_token')
        if method == 'post' and url.endswith('users/loginWithToken'):
            if kw['json'] != {'apiToken': 'tok'}:
                self.bad(f'logs in with {kw["json"]}')
            return self.http('login', lambda a: {'id': 'acc'})
        if url.startswith('http://store/'):
            if (kw.get('params') or {}).get('access_token', 0) is not None and 'access_token' in (kw.get('params') or {}):
                self.bad('the access token is sent to the object storage')
        elif tok != 'acc':
            self.bad(f'{method} {url} is not authenticated')
        if method == 'get' and url.endswith('devices/v/1'):
            known = {self.other: 10, self.device: 5}

            def js(a):
                if a == 'gone':
                    known.pop(self.device)
                elif a == 'small':
                    known[self.device] = self.nq - 1
                elif a == 'exact':
                    known[self.device] = self.nq
                return [{'backend_name': k, 'n_qubits': v, 'coupling_map': [], 'backend_version': '1.2'} for k, v in known.items()]
            first = not self.polls
            return self.http('devices' if first else 'refresh', js, ['gone', 'small', 'exact'] if first and self.rich else ['gone'])
        if method == 'post' and url.endswith('devices/v/1'):
            self.bad('post')
        if method == 'post' and url.endswith('/Jobs'):
            self.submitted.append(kw['json']['backend']['name'])
            return self.http('submit', lambda a: {'id': self.JOB, 'objectStorageInfo': {'uploadUrl': 'http://store/up'}})
        if method == 'put' and url == 'http://store/up':
            self.shots = json.loads(kw['data'])['config']['shots']
            return self.http('upload', lambda a: {}, body=False)
        if method == 'post' and url.endswith(f'/Jobs/{self.JOB}/jobDataUploaded'):
            return self.http('uploaded', lambda a: {}, body=False)
        if method == 'get' and url.endswith(f'/Jobs/{self.JOB}'):
            self.polls += 1
            return self.http('status', lambda a: {'status': 'COMPLETED' if a == 'ok' else a}, self.statuses())
        if method == 'get' and url.endswith(f'/Jobs/{self.JOB}/resultDownloadUrl'):
            return self.http('url', lambda a: {'url': 'http://store/result'})
        if method == 'get' and url == 'http://store/result':
            self.served = {'data': {'counts': {'0x0': 30, '0x2': 70}}, 'shots': 100}
            return self.http('result', lambda a: {'results': [self.served]})
        if method == 'post' and url.endswith(f'/Jobs/{self.JOB}/resultDownloaded'):
            return self.http('downloaded', lambda a: {})
        self.bad(f'unknown request {method} {url}')
        raise AssertionError('unknown request')

    def patch(self):
        return cloud._Http(self.handle)

    def send(self, n, interval, verbose, **kw):
        from projectq.backends._ibm import _ibm_http_client as c

        info = {'json': [{'qubits': [1], 'name': 'u3', 'params': [3.14, 0, 3.14]}, {'qubits': [1], 'name': 'measure', 'memory': [1]}], 'nq': self.nq, 'shots': 100, 'maxCredits': 10, 'backend': {'name': self.device}}
        return c.send(info, device=kw.get('device', self.device), token=kw.get('token', 'tok'), num_retries=n, interval=interval, verbose=verbose)

    def retrieve(self, n, interval, verbose, **kw):
        from projectq.backends._ibm import _ibm_http_client as c

        return c.retrieve(kw.get('device', self.device), kw.get('token', 'tok'), self.JOB, num_retries=n, interval=interval, verbose=verbose)

    def engine(self, n, interval, verbose, job=None):
        from projectq import MainEngine
        from projectq.backends import IBMBackend
        from projectq.cengines import ManualMapper

        return MainEngine(IBMBackend(use_hardware=True, num_runs=100, token='tok', device=self.device, num_retries=n, interval=interval, verbose=verbose, retrieve_execution=job), [ManualMapper(lambda i: i)])

    probs = {'00': 0.3, '01': 0.7}


class AQT(Script):
    device, nq = 'aqt_simulator', 3
    sizes = {'aqt_simulator': 11, 'aqt_simulator_noise': 11, 'aqt_device': 4}
    RUN = ['queued', 'running']
    FAIL = ['error', 'cancelled']

    def handle(self, method, url, kw, session):
        d = kw['data']
        if d.get('access_token') != 'tok' or session.headers.get('Ocp-Apim-Subscription-Key') != 'tok':
            self.bad('not authenticated')
        want = {'aqt_simulator': 'sim/', 'aqt_simulator_noise': 'sim/noise-model-1', 'aqt_device': 'lint/'}[self.device]
        if method != 'put' or url != 'https://gateway.aqt.eu/marmot/' + want:
            self.bad(f'{method} {url}')
        if 'data' in d:
            self.submitted.append(self.device)
            return self.http('submit', lambda a: {'status': 'queued' if a == 'ok' else 'error', 'id': self.JOB}, ['refused'])
        if d.get('id') != self.JOB:
            self.bad(f'asks for job {d.get("id")}')
        self.polls += 1

        def js(a):
            if a != 'ok':
                return {'status': a, 'id': self.JOB}
            self.served = [0, 0, 2, 2, 2, 2, 2, 0, 2, 2]
            return {'status': 'finished', 'samples': self.served, 'id': self.JOB}
        return self.http('status', js, self.statuses())

    def patch(self):
        return cloud._Http(self.handle)

    def send(self, n, interval, verbose, **kw):
        from projectq.backends._aqt import _aqt_http_client as c

        info = {'circuit': '[["X", 1.0, [1]]]', 'nq': self.nq, 'shots': 10, 'backend': {'name': self.device}}
        return c.send(info, device=kw.get('device', self.device), token=kw.get('token', 'tok'), num_retries=n, interval=interval, verbose=verbose)

    def retrieve(self, n, interval, verbose, **kw):
        from projectq.backends._aqt import _aqt_http_client as c

        return c.retrieve(self.device, kw.get('token', 'tok'), self.JOB, num_retries=n, interval=interval, verbose=verbose)

    def engine(self, n, interval, verbose, job=None):
        from projectq import MainEngine
        from projectq.backends import AQTBackend

        return MainEngine(AQTBackend(use_hardware=True, num_runs=10, token='tok', device=self.device, num_retries=n, interval=interval, verbose=verbose, retrieve_execution=job), [])

    probs = {'00': 0.3, '01': 0.7}


class IonQ(Script):
    device, nq = 'qpu', 3
    RUN = ['ready', 'submitted', 'running']
    FAIL = ['failed', 'canceled']

    def handle(self, method, url, kw, session):
        if session.headers.get('Authorization') != 'apiKey tok':
            self.bad('not authenticated')
        if url.endswith('/v0.2/backends'):
            known = {'simulator': 29, 'qpu': 11}

            def js(a):
                if a == 'gone':
                    known.pop('qpu')
                elif a == 'small':
                    known['qpu'] = self.nq - 1
                elif a == 'exact':
                    known['qpu'] = self.nq
                return [{'backend': k, 'qubits': v} for k, v in known.items()]
            first = not self.polls
            return self.http('devices' if first else 'refresh', js, ['gone', 'small', 'exact'] if first and self.rich else ['gone'])
        if method == 'post' and url.endswith('/v0.2/jobs'):
            self.submitted.append(kw['json']['target'])

            def js(a):
                return {'ok': {'status': 'ready', 'id': self.JOB}, 'refused': {'status': 'failed', 'id': self.JOB, 'failure': {'code': 'NoWay', 'error': 'not today'}}, 'refused2': {'status': 'failed', 'id': self.JOB}}[a]
            return self.http('submit', js, ['refused', 'refused2'])
        if method == 'get' and url.endswith('/v0.2/jobs/' + self.JOB):
            self.polls += 1

            def js(a):
                if a != 'ok':
                    return {'status': a, 'id': self.JOB}
                self.served = {'nq': 3, 'output_probs': {'0': 0.3, '2': 0.7}, 'meas_mapped': [0, 1], 'meas_qubit_ids': [0, 1]}
                return {'status': 'completed', 'id': self.JOB, 'qubits': 3, 'registers': {'meas_mapped': [0, 1]}, 'metadata': {'meas_qubit_ids': '[0, 1]'}, 'data': {'registers': {'meas_mapped': {'0': 0.3, '2': 0.7}}}}
            return self.http('status', js, self.statuses())
        self.bad(f'unknown request {method} {url}')
        raise AssertionError('unknown request')

    def patch(self):
        return cloud._Http(self.handle)

    def send(self, n, interval, verbose, **kw):
        from projectq.backends._ionq import _ionq_http_client as c

        info = {'circuit': [{'gate': 'x', 'targets': [1]}], 'nq': self.nq, 'shots': 100, 'meas_mapped': [0, 1], 'meas_qubit_ids': [0, 1]}
        return c.send(info, device=kw.get('device', self.device), token=kw.get('token', 'tok'), num_retries=n, interval=interval, verbose=verbose)

    def retrieve(self, n, interval, verbose, **kw):
        from projectq.backends._ionq import _ionq_http_client as c

        return c.retrieve(self.device, kw.get('token', 'tok'), self.JOB, num_retries=n, interval=interval, verbose=verbose)

    def engine(self, n, interval, verbose, job=None):
        from projectq import MainEngine
        from projectq.backends import IonQBackend
        from projectq.backends._ionq._ionq_mapper import BoundedQubitMapper

        return MainEngine(IonQBackend(use_hardware=True, num_runs=100, token='tok', device=self.device, num_retries=n, interval=interval, verbose=verbose, retrieve_execution=job), [BoundedQubitMapper(5)])

    probs = {'00': 0.3, '01': 0.7}


AWSERR = ['AccessDeniedException', 'DeviceOfflineException', 'InternalServiceException', 'ServiceQuotaExceededException', 'ValidationException', 'ResourceNotFoundException', 'ThrottlingException', 'conn', 'int']


class AWS(Script):
    device, nq = 'Aspen-8', 3
    JOB = 'arn:aws:braket:us-west-1:1:quantum-task/77'
    ANSWERS = ['id', 'key']
    RUN = ['CREATED', 'QUEUED', 'RUNNING']
    FAIL = ['FAILED', 'CANCELLING', 'CANCELLED']
    where = {'Aspen-8': 'us-west-1', 'SV1': 'us-east-1', 'IonQ Device': 'us-east-1'}
    types = {'Aspen-8': 'QPU', 'SV1': 'SIMULATOR', 'IonQ Device': 'QPU'}
    sizes = {'Aspen-8': 32, 'SV1': 34, 'IonQ Device': 11}

    def call(self, point, js, options=()):
        import botocore.exceptions as be

        a = self.ask(point, ['ok'] + list(options) + (AWSERR if self.rich else ['InternalServiceException']))
        if a == 'conn':
            raise be.EndpointConnectionError(endpoint_url='https://x')
        if a in AWSERR and a != 'int':
            raise be.ClientError({'Error': {'Code': a, 'Message': 'it is bad'}}, point)
        return js(a)

    def client(self, name, *args, **k):
        svc = self
        if (k.get('aws_access_key_id'), k.get('aws_secret_access_key')) != ('id', 'key'):
            self.bad('not authenticated')
        region = k.get('region_name')

        class Braket:
            def search_devices(s, filters=(), **kw):
                def js(a):
                    names = [d for d, r in svc.where.items() if r == region and not (a == 'gone' and d == svc.device)]
                    svc.small = svc.sizes[svc.device] if a not in ('small', 'exact') else svc.nq - (a == 'small')
                    return {'devices': [{'deviceArn': 'arn:dev:' + d, 'deviceName': d, 'deviceType': svc.types[d], 'deviceStatus': 'ONLINE', 'providerName': 'p'} for d in names]}
                here = region == svc.where[svc.device]
                return svc.call('devices' if here else 'devices elsewhere', js, ['gone', 'small', 'exact'] if svc.rich and here else ['gone'] if here else [])

            def get_device(s, deviceArn, **kw):
                d = deviceArn[8:]
                n = svc.small if d == svc.device and hasattr(svc, 'small') else svc.sizes[d]
                cap = {'braketSchemaHeader': {'name': 'n', 'version': '1'}, 'paradigm': {'qubitCount': n, 'connectivity': {'fullyConnected': True, 'connectivityGraph': {}}},
                       'deviceParameters': {'properties': {'braketSchemaHeader': {'const': {'name': 'dp', 'version': '1'}}}, 'definitions': {'GateModelParameters': {'properties': {'braketSchemaHeader': {'const': {'name': 'gm', 'version': '1'}}}}}}}
                r = {'deviceName': d, 'deviceType': svc.types[d], 'deviceCapabilities': json.dumps(cap)}
                if d != svc.device:
                    return r
                return svc.call('device', lambda a: r)

            def create_quantum_task(s, action, deviceArn, deviceParameters, outputS3Bucket, outputS3KeyPrefix, shots, **kw):
                svc.submitted.append(deviceArn[8:])
                if region != svc.where[deviceArn[8:]] or shots != 10 or (outputS3Bucket, outputS3KeyPrefix) != ('bu', 'fo'):
                    svc.bad(f'submitted to {region}, {shots} shots, {outputS3Bucket}/{outputS3KeyPrefix}')
                return svc.call('submit', lambda a: {'quantumTaskArn': svc.JOB})

            def get_quantum_task(s, quantumTaskArn, **kw):
                if quantumTaskArn != svc.JOB or region != 'us-west-1':
                    svc.bad(f'asks for {quantumTaskArn} in {region}')
                svc.polls += 1

                def js(a):
                    r = {'status': 'COMPLETED' if a == 'ok' else a, 'outputS3Bucket': 'bu', 'outputS3Directory': 'fo/77', 'deviceArn': 'arn:dev:' + svc.device, 'quantumTaskArn': svc.JOB}
                    if a == 'FAILED':
                        r['failureReason'] = 'melted down'
                    return r
                return svc.call('status', js, svc.statuses())

        class S3:
            def get_object(s, Bucket, Key, **kw):
                if (Bucket, Key) != ('bu', 'fo/77/results.json'):
                    svc.bad(f'reads {Bucket} {Key}')

                def js(a):
                    svc.served = {'00': 0.3, '01': 0.7}
                    r = {'measurementProbabilities': svc.served, 'measuredQubits': [0, 1]}
                    if svc.types[svc.device] == 'SIMULATOR':
                        r = {'measurements': [[0, 1]] * 2 + [[0, 0]] * 3 + [[0, 1]] * 5, 'measuredQubits': [0, 1]}
                    return {'Body': io.BytesIO(json.dumps(r).encode())}
                return svc.call('result', js)
        return {'braket': Braket, 's3': S3}[name]()

    def patch(self):
        svc = self

        class P:
            def __enter__(s):
                import boto3

                s.old = boto3.client
                boto3.client = svc.client
                return s

            def __exit__(s, *a):
                import boto3

                boto3.client = s.old
        return P()

    CRED = {'AWS_ACCESS_KEY_ID': 'id', 'AWS_SECRET_KEY': 'key'}

    def send(self, n, interval, verbose, **kw):
        from projectq.backends._awsbraket import _awsbraket_boto3_client as c

        info = {'circuit': '{"instructions": []}', 'nq': self.nq, 'shots': 10, 'backend': {'name': self.device}}
        return c.send(info, device=kw.get('device', self.device), credentials=dict(self.CRED) if kw.get('token', 1) else None, s3_folder=['bu', 'fo'], num_retries=n, interval=interval, verbose=verbose)

    def retrieve(self, n, interval, verbose, **kw):
        from projectq.backends._awsbraket import _awsbraket_boto3_client as c

        return c.retrieve(dict(self.CRED) if kw.get('token', 1) else None, self.JOB, num_retries=n, interval=interval, verbose=verbose)

    def engine(self, n, interval, verbose, job=None):
        from projectq import MainEngine
        from projectq.backends import AWSBraketBackend

        return MainEngine(AWSBraketBackend(use_hardware=True, num_runs=10, credentials=dict(self.CRED), s3_folder=['bu', 'fo'], device=self.device, num_retries=n, interval=interval, verbose=verbose, retrieve_execution=job), [])

    probs = {'00': 0.3, '01': 0.7}


class Azure(Script):
    """The SDK polls; the client passes the time limit on."""

    device, nq = 'ionq.simulator', 2
    RUN, FAIL = [], ['failed']
    limit = None

    def patch(self):
        svc = self

        class P:
            def __enter__(s):
                from azure.quantum.target import target_factory as tf

                s.tf, s.old = tf.TargetFactory, tf.TargetFactory.get_targets
                tf.TargetFactory.get_targets = lambda self_, name=None, provider_id=None, **k: svc.target()
                return s

            def __exit__(s, *a):
                s.tf.get_targets = s.old
        return P()

    def fault(self, point, options=()):
        a = self.ask(point, ['ok'] + list(options) + ['error', 'int'] if self.rich else ['ok'] + list(options) + ['error'])
        if a == 'error':
            raise RuntimeError(f'azure error at {point}')
        return a

    def job(self):
        svc = self

        class J:
            id = svc.JOB

            def get_results(s, timeout_secs=None, *a, **k):
                svc.polls += 1
                svc.limit = timeout_secs
                r = svc.fault('status', ['late', 'failed'])
                if r == 'late':
                    raise TimeoutError(f'The wait time has exceeded {timeout_secs} seconds.')
                if r == 'failed':
                    raise RuntimeError('Cannot retrieve results as job execution failed (status: failed).')
                svc.served = {'histogram': {'0': 0.3, '2': 0.7}}
                return svc.served
        return J()

    def target(self):
        svc = self

        class T:
            name = svc.device
            provider_id = 'ionq'
            average_queue_time = 0

            @property
            def current_availability(s):
                a = svc.ask('devices', ['Available', 'Degraded', 'Unavailable', 'Deleted'])
                return a

            @property
            def workspace(s):
                return svc.workspace()

            def submit(s, circuit=None, num_shots=None, **kw):
                svc.submitted.append(svc.device)
                svc.fault('submit')
                return svc.job()
        return T()

    def workspace(self):
        svc = self

        class W:
            name = 'w'

            def append_user_agent(s, *_):
                pass

            def get_job(s, job_id, **k):
                if job_id != svc.JOB:
                    svc.bad(f'asks for job {job_id}')
                svc.fault('get_job')
                return svc.job()
        return W()

    def send(self, n, interval, verbose, **kw):
        from projectq.backends._azure import _azure_quantum_client as c

        return c.send({'qubits': 2, 'circuit': []}, 100, self.target(), num_retries=n, interval=interval, verbose=verbose, metadata={'num_qubits': 2, 'meas_map': [0, 1]})

    def retrieve(self, n, interval, verbose, **kw):
        from projectq.backends._azure import _azure_quantum_client as c

        return c.retrieve(self.JOB, self.target(), num_retries=n, interval=interval, verbose=verbose)

    def engine(self, n, interval, verbose, job=None):
        from projectq import MainEngine
        from projectq.backends import AzureQuantumBackend
        from projectq.backends._ionq._ionq_mapper import BoundedQubitMapper

        return MainEngine(AzureQuantumBackend(use_hardware=False, num_runs=100, workspace=self.workspace(), target_name=self.device, num_retries=n, interval=interval, verbose=verbose, retrieve_execution=job), [BoundedQubitMapper(5)])

    probs = {'00': 0.3, '01': 0.7}


CLIENTS = {'ibm': IBM, 'aqt': AQT, 'ionq': IonQ, 'aws': AWS, 'azure': Azure}


# ---------------------------------------------------------------- one conversation
class Handlers:
    """The user's interrupt handler before the call."""

    def __init__(self, kind):
        self.kind, self.calls = kind, 0

        def own(*_):
            self.calls += 1
        self.h = {'own': own, 'default': signal.default_int_handler, 'dfl': signal.SIG_DFL, 'ign': signal.SIG_IGN}[kind]

    def __enter__(self):
        self.old = signal.signal(signal.SIGINT, self.h)
        return self

    def __exit__(self, *a):
        signal.signal(signal.SIGINT, self.old)


def converse(ctx, client, mode, n, interval, verbose, hk, rich, ch, kw):
    """Runs the real client once; returns (script, outcome, handlers, restored)."""
    cls = CLIENTS[client]
    run, failed = (cls.RUN, cls.FAIL) if rich else (cls.RUN[:1], cls.FAIL[:1])
    if kw.get('statuses'):
        run, failed = kw['statuses'], []
    sc = cls(ch, rich, run, failed)
    for k in ('device', 'nq'):
        if k in kw:
            setattr(sc, k, kw[k])
    if mode.startswith('engine') and 'nq' not in kw:
        sc.nq = 2
    if kw.get('nosleepint'):
        sc.sleep_int = False
    if hk == 'dfl':
        sc.sleep_int = False
    h = Handlers(hk)
    old = time.sleep, getpass.getpass
    out = None
    with cloud.Quiet() as quiet, sc.patch(), h:
        time.sleep, getpass.getpass = sc.sleep, sc.prompt
        try:
            with cloud.rng(0.5):
                if mode in ('send', 'retrieve'):
                    r = getattr(sc, mode)(n, interval, verbose, **{k: v for k, v in kw.items() if k in ('token',)}, **({'device': kw['ask']} if 'ask' in kw else {}))
                    out = ('none', None) if r is None else ('result', r)
                else:
                    out = engine_run(sc, mode, n, interval, verbose)
        except KeyboardInterrupt as e:
            out = ('interrupt', e)
        except AssertionError:
            raise
        except Exception as e:  # noqa
            out = ('error', e)
        finally:
            time.sleep, getpass.getpass = old
        restored = signal.getsignal(signal.SIGINT) is h.h
        text = quiet and __import__('sys').stdout.getvalue()
    ctx.tr(len(sc.log))
    return sc, out, h, restored, text


def engine_run(sc, mode, n, interval, verbose):
    """Through the backend: a program with one flush."""
    from mc import sims
    from projectq.ops import Measure, Rx

    eng = sc.engine(n, interval, verbose, sc.JOB if mode == 'engine-retrieve' else None)
    q = eng.allocate_qureg(2)
    try:
        Rx(1.0) | q[1]
        Measure | q[0]
        Measure | q[1]
        try:
            eng.flush()
        except Exception as e:  # noqa
            for x in q:
                try:
                    int(x)
                    sc.bad('a measurement result after a failed run')
                except Exception:  # noqa
                    pass
            return 'error', _strip(e)
        return 'result', (dict(eng.backend.get_probabilities(q)), [int(x) for x in q])
    finally:
        sims.sink(eng)
        for x in q:
            x.id = -1


def _strip(e):
    e.__traceback__ = None
    return e


REGULAR = {'ok', 'exact', 'Available'}


def judge(ctx, client, mode, n, interval, hk, sc, out, h, restored, text, kw):
    """The conversation against the property. Returns a list of complaints (short, long)."""
    bad = []
    kind, val = out
    cls = CLIENTS[client]
    pts = [p for p, _ in sc.log]
    ans = sc.log
    job = sc.JOB
    faults = [(p, a) for p, a in ans if a not in REGULAR and a not in cls.RUN and not (a == 'int')]
    if mode.endswith('retrieve'):  # the job may be fetched whatever the devices are now
        faults = [(p, a) for p, a in faults if p != 'devices' or a not in ('gone', 'small', 'Degraded', 'Unavailable', 'Deleted')]
    ints = [i for i, (p, a) in enumerate(ans) if a == 'int']

    def say(what):
        bad.append(what)
    for p in sc.problems:
        say(p)
    if not restored:
        say("the user's interrupt handler is not restored")
    # -- number of requests
    if len(sc.submitted) > 1:
        say(f'{len(sc.submitted)} jobs submitted')
    if mode.endswith('retrieve') and sc.submitted:
        say('retrieving submits a job')
    if client != 'azure':
        if sc.polls > n:
            say(f'{sc.polls} status requests with num_retries={n}')
        if any(t != interval for t in sc.sleeps) or len(sc.sleeps) > n:
            say(f'sleeps {sc.sleeps[:4]}... with interval={interval}, num_retries={n}')
    elif sc.polls and sc.limit != n * interval:
        say(f'time limit {sc.limit} with num_retries={n}, interval={interval}')
    # -- device
    dev = [a for p, a in ans if p == 'devices']
    unfit = None
    if 'gone' in dev or any(a in ('Degraded', 'Unavailable', 'Deleted') for a in dev) or kw.get('unknown'):
        unfit = 'DeviceOfflineError'
    elif 'small' in dev or kw.get('toosmall'):
        unfit = 'DeviceTooSmall'
    earlier = [x for x in faults if x[0] in ('login', 'device', 'devices elsewhere') or x[1] in HTTP + AWSERR]
    if not mode.endswith('retrieve'):
        if unfit and sc.submitted:
            say(f'a job is submitted to an unfit device ({unfit})')
        if unfit and not earlier and not ints and not (kind == 'error' and type(val).__name__ == unfit):
            say(f'{unfit} expected, got {kind} {val!r}')
    # -- interrupts: while the client waits for the result it reports the job; before, they are the user's
    waiting = [i for i in ints if pts[i] in ('status', 'sleep', 'refresh', 'url', 'result', 'downloaded')]
    if client == 'azure':
        waiting = []
    if client == 'aws':  # s3 and device are asked while waiting
        waiting += [i for i in ints if pts[i] == 'device' and 'status' in pts[:i] and i not in waiting]
    if waiting:
        i = waiting[0]
        if len(ans) > i + 1:
            say(f'goes on with {ans[i + 1:]} after an interrupt')
        if kind != 'error' or job not in str(val):
            say(f'an interrupt while waiting gives {kind} {val!r}, without the job id')
    others = [i for i in ints if i not in waiting]
    if hk == 'own' and h.calls != len(others):
        say(f"the user's handler is called {h.calls} times for {len(others)} interrupts before the job was submitted")
    if hk == 'default' and others and kind != 'interrupt':
        say(f'an interrupt before waiting gives {kind} {val!r}, not KeyboardInterrupt')
    if kind == 'interrupt' and not (hk == 'default' and others):
        say('KeyboardInterrupt out of nothing')
    # -- results
    status = [a for p, a in ans if p == 'status']
    if kind == 'result':
        if not status or status[-1] not in ('ok', 'int'):
            say(f'a result although the last status is {status[-1:]}')
        want = sc.served
        if mode.startswith('engine'):
            p, m = val
            if sc.served is None or p != sc.probs or m != [0, 1]:
                say(f'result {val}, served {sc.served}')
        elif client == 'aws' and sc.types[sc.device] == 'SIMULATOR':
            if sc.served is None or {k: round(v, 9) for k, v in val.items()} != want:
                say(f'result {val}, served {want}')
        elif sc.served is None or val != want:
            say(f'result {val}, served {want}')
        served_fault = [x for x in faults if not (x[0] == 'downloaded')]
        if served_fault and not [x for x in served_fault if x[0] in ('refresh',)] and not _recovered(sc, served_fault):
            say(f'a result in spite of {served_fault}')
    elif not faults and not unfit and not waiting and kind != 'interrupt':
        # every answer was regular: either the job finished in time, or the time ran out
        if status and status[-1] in ('ok', 'int'):
            say(f'the job is completed, but the outcome is {kind} {val!r}')
        else:
            if kind != 'error' or job not in str(val):
                say(f'time ran out, but the outcome is {kind} {val!r}')
            elif client not in ('ibm',) and type(val).__name__ != 'RequestTimeoutError':
                say(f'time ran out, but the error is {val!r}')
            if client != 'azure' and sc.polls != n:
                say(f'gives up after {sc.polls} of {n} status requests')
    # -- failed jobs
    fin = [a for a in status if a in cls.FAIL]
    if fin and client != 'azure':
        if status[-1] != fin[0]:
            say(f'asks again after the status {fin[0]}')
        if kind != 'error' or fin[0].lower() not in str(val).lower():
            say(f'the job ended as {fin[0]}, but the outcome is {kind} {val!r}')
        if client == 'aws' and fin[0] == 'FAILED' and 'melted down' not in str(val):
            say(f'the failure reason is not reported: {val!r}')
    if client == 'azure':
        if 'late' in status and not (kind == 'error' and type(val).__name__ == 'RequestTimeoutError' and job in str(val)):
            say(f'RequestTimeoutError expected, got {kind} {val!r}')
        if 'failed' in status and not (kind == 'error' and 'failed' in str(val)):
            say(f'the job failed, but the outcome is {kind} {val!r}')
    if not waiting and not fin and 'gone' in [a for p, a in ans if p == 'refresh'] and not [x for x in faults if x[1] != 'gone']:
        if not (kind == 'error' and type(val).__name__ == 'DeviceOfflineError' and job in str(val)):
            say(f'the device went offline, but the outcome is {kind} {val!r}')
    # -- refused submissions
    sub = [a for p, a in ans if p == 'submit']
    if sub and sub[0] not in ('ok', 'int'):
        if sc.polls:
            say(f'asks for the status of a job that was refused ({sub[0]})')
        if kind == 'result':
            say(f'a result for a job that was refused ({sub[0]})')
        if sub[0] == 'refused' and kind != 'error':
            say(f'the job was refused, but the outcome is {kind}')
        if client == 'ionq' and sub[0] == 'refused' and not mode.startswith('engine') and not (type(val).__name__ == 'JobSubmissionError' and 'NoWay' in str(val) and 'not today' in str(val)):
            say(f'the reason of the refusal is not reported: {val!r}')
    if faults and not fin and kind == 'none' and client in ('ibm', 'aqt', 'ionq') and mode == 'send' and 'error' not in text.lower() and 'wrong' not in text and 'Failed' not in text:
        say(f'{faults} is not reported')
    if client == 'ionq' and mode == 'send' and faults and not waiting:
        a = faults[0][1]
        if a == '401' and not (kind == 'error' and type(val).__name__ == 'HTTPError'):
            say(f'authentication failed, but the outcome is {kind} {val!r}')
        if a == '400' and not (kind == 'error' and type(val).__name__ == 'JobSubmissionError' and 'Bad thing' in str(val) and 'it is bad' in str(val)):
            say(f'a bad request gives {kind} {val!r}')
    if client == 'aws' and not mode.startswith('engine') and faults and not waiting and not fin:
        a = faults[0][1]
        if a.endswith('Exception') and not (kind == 'error' and type(val).__name__ == 'ClientError' and a in str(val)):
            say(f'{a} gives {kind} {val!r}')
    if client == 'aws' and mode.startswith('engine') and faults and not waiting and not fin and faults[0][1].endswith('Exception') and not (kind == 'error' and type(val).__name__ == 'ClientError' and faults[0][1] in str(val)):
        say(f'{faults[0][1]} gives {kind} {val!r}')
    if mode.startswith('engine') and faults and kind == 'error' and type(val) is TypeError and '__init__' in str(val):
        say(f'{faults[0]} gives an internal error: {val!r}')
    if kw.get('token', 'tok') is None and sc.prompts != len(sc.ANSWERS) and not mode.startswith('engine'):
        say(f'asks {sc.prompts} times for the token')
    if kw.get('token', 'tok') is not None and sc.prompts:
        say('asks for a token that was given')
    return bad


def _recovered(sc, faults):
    """A client may ask again after a failed status request, within its number of retries."""
    return all(p == 'status' and a in ('500', 'conn', 'timeout', '404', 'nokeys', 'nojson', '400', '401') for p, a in faults)


def explore(ctx, case):
    client, mode, n, hk, rich, verbose, prefix, kw = case
    interval = kw.get('interval', 2)
    ch = Choices(prefix)
    runs = 0
    while True:
        ch.start()
        sc, out, h, restored, text = converse(ctx, client, mode, n, interval, verbose, hk, rich, ch, kw)
        runs += 1
        ctx.trace()
        ctx.state((client, mode, n, hk, tuple(sc.log)))
        if any(a not in REGULAR for _, a in sc.log):
            ctx.key((client, mode, n, tuple(sc.log), repr(kw)))
        ctx.outcome(f'{client} {mode} {out[0]} {type(out[1]).__name__ if out[0] == "error" else ""}')
        for b in judge(ctx, client, mode, n, interval, hk, sc, out, h, restored, text, kw)[:2]:
            last = sc.log[-1] if sc.log else ('', '')
            import re
            short = re.sub(r"\{.*|\[.*|\(.*|'.*", '', b)[:70].strip()
            ctx.fail(f'{client} {mode}: {short} [{last[0]} {last[1]}]', f'{client} {mode}, num_retries={n}, handler {hk}, {kw}: conversation {sc.log}\n{b}')
            if len(ctx.violations) > 30:
                return
        if not ch.next():
            break
        if runs > MAXRUNS:
            ctx.fail('space', f'more than {MAXRUNS} conversations')
            break


def cases(tier):
    T = tier == 'thorough'
    out = []
    # the regular conversations with each device / retries / handler
    for c in CLIENTS:
        modes = ['send', 'retrieve', 'engine', 'engine-retrieve']
        for mode in modes:
            for n in (0, 1, 2, 3, 4) + ((5,) if T else ()):
                out.append([c, mode, n, 'own', False, False, [], {}])
            for hk in ('own', 'default', 'dfl', 'ign'):
                for verbose in (False, True):
                    out.append([c, mode, 2, hk, False, verbose, [], {'interval': 1 if verbose else 3}])
        for mode in ('send', 'retrieve'):
            if c != 'azure':
                out.append([c, mode, 2, 'own', False, False, [], {'token': None}])
    for d in ('aqt_simulator', 'aqt_simulator_noise', 'aqt_device'):
        for nq in (4, 5, 11, 12):
            out.append(['aqt', 'send', 1, 'own', False, False, [], {'device': d, 'nq': nq, 'toosmall': nq > AQT.sizes[d]}])
        out.append(['aqt', 'retrieve', 2, 'own', False, False, [], {'device': d}])
    for c in ('aqt', 'ibm', 'ionq', 'aws'):
        out.append([c, 'send', 1, 'own', False, False, [], {'ask': 'nowhere', 'unknown': True}])
    for d in ('SV1', 'IonQ Device', 'Aspen-8'):
        for mode in ('send', 'retrieve', 'engine', 'engine-retrieve'):
            out.append(['aws', mode, 2, 'own', False, False, [], {'device': d}])
    # a device that goes offline much later
    for c in ('ibm', 'ionq'):
        for mode in ('send', 'retrieve'):
            for n in (61, 62, 121):
                out.append([c, mode, n, 'own', False, False, [], {'late': True, 'statuses': [CLIENTS[c].RUN[-1]], 'nosleepint': True}])
    # every answer at every request
    for c in CLIENTS:
        for mode in ('send', 'retrieve', 'engine', 'engine-retrieve'):
            for hk in ('own', 'default'):
                for n in ((0, 1, 2, 3) if not T else (0, 1, 2, 3, 4)):
                    if n == 3 and (mode.startswith('engine') or hk == 'default') and not T:
                        continue
                    if n == 4 and (hk == 'default' or mode.startswith('engine') or c == 'ibm'):
                        continue
                    out.append([c, mode, n, hk, True, n == 1, [], {}])
    return out


def run(case, ctx):
    explore(ctx, case)
