"""Runs one check: enumerates its cases, executes each on the real code in worker processes, collects verdicts.

A check module (mc/checks/cNN.py) defines
    ID, RULE          property id, and in words how cases are made / what counts as non-trivial
    cases(tier)       iterable of JSON-able cases, simplest first: the complete bounded space of this tier
    run(case, ctx)    executes one case on the real code and compares with the reference model
    setup(tier)       optional, in the parent before forking
ctx.fail(sig, msg) records a violation; sig names the failing input or call site (matched by known_findings.json).
"""
import argparse
import gc
import hashlib
import importlib
import io
import json
import mmap
import multiprocessing as mp
import os
import pickle
import random
import signal
import struct
import sys
import time
import traceback
from collections import Counter

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CASE_TIMEOUT = 300
MAX_VIOLATIONS = 40


class CaseTimeout(BaseException):
    pass


def tidy():
    """Garbage is collected only between traces, so that finalisers of an earlier program never run inside a later one."""
    if gc.get_count()[0] > 3000:
        gc.collect()


class Ctx:
    def __init__(self):
        self.counts = Counter()
        self.states = set()
        self.nontrivial = set()
        self.outcomes = Counter()
        self.violations = []
        self.samples = []
        self.case = None
        self.idx = None

    def tr(self, n=1):
        """n transitions (operations executed on the real code)."""
        self.counts['transitions'] += n

    def trace(self, n=1):
        """n complete traces compared with the reference model."""
        tidy()
        self.counts['traces'] += n

    def state(self, obj):
        """A (canonical) state reached."""
        if not isinstance(obj, bytes):
            obj = repr(obj).encode()
        self.states.add(hashlib.blake2b(obj, digest_size=8).digest())

    def key(self, obj):
        """A distinct non-trivial case, by the check's RULE."""
        if not isinstance(obj, bytes):
            obj = repr(obj).encode()
        self.nontrivial.add(hashlib.blake2b(obj, digest_size=8).digest())

    def outcome(self, label):
        self.outcomes[str(label)] += 1

    def fail(self, sig, msg):
        self.violations.append((self.idx, self.case, str(sig), str(msg)))

    def sample(self, obj):
        if len(self.samples) < 2:
            self.samples.append(obj)


def _alarm(*_):
    raise CaseTimeout()


def _execute(mod, idx, case, ctx):
    """One case; any escape from run() is a violation of the property (the code under test misbehaved)."""
    ctx.idx, ctx.case = idx, case
    random.seed(12345)
    try:
        import numpy as np

        np.random.seed(12345)
    except ImportError:
        pass
    ctx.counts['evaluations'] += 1
    t = getattr(mod, 'CASE_TIMEOUT', CASE_TIMEOUT)
    signal.setitimer(signal.ITIMER_REAL, t)
    try:
        mod.run(case, ctx)
    except CaseTimeout:
        ctx.fail('timeout', f'case did not finish within {t}s')
    except BaseException as e:  # noqa
        tb = traceback.format_exc(limit=-6)
        ctx.fail(f'unexpected {type(e).__name__}: {str(e).strip().splitlines()[0] if str(e).strip() else ""}'[:200], tb)
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)


def _worker(mod, cases, counter, stop, chunk, mm, out, deadline):
    signal.signal(signal.SIGALRM, _alarm)
    gc.disable()
    gc.freeze()
    ctx = Ctx()
    n = len(cases)
    cwd = out + '.d'
    os.mkdir(cwd)
    os.chdir(cwd)
    if not os.environ.get('VERIF_DEBUG'):  # the code under test prints
        null = os.open(os.devnull, os.O_WRONLY)
        os.dup2(null, 1)
        os.dup2(null, 2)
        sys.stdout = sys.stderr = open(os.devnull, 'w')
    while not stop.value and time.time() < deadline:
        with counter.get_lock():
            lo = counter.value
            counter.value = min(n, lo + chunk)
        if lo >= n:
            break
        for i in range(lo, min(n, lo + chunk)):
            mm[:8] = struct.pack('q', i)
            before = len(ctx.violations)
            _execute(mod, i, cases[i], ctx)
            tidy()
            if len(ctx.violations) > before and len(ctx.violations) >= MAX_VIOLATIONS:
                stop.value = 1
                break
            ctx.counts['done'] += 1
    mm[:8] = struct.pack('q', -1)
    with open(out, 'wb') as f:
        pickle.dump(ctx, f)
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(0)


def explore(mod, tier, budget):
    from . import env

    cases = list(mod.cases(tier))
    n = len(cases)
    nproc = int(os.environ.get('VERIF_PROCS', '8'))
    chunk = max(1, min(getattr(mod, 'CHUNK', 64), n // (nproc * 8) or 1))
    counter, stop = mp.Value('q', 0), mp.Value('i', 0)
    deadline = time.time() + budget
    procs, mms, outs = [], [], []
    d = env.scratch()
    fork = mp.get_context('fork')
    sys.stdout.flush()
    for k in range(min(nproc, max(1, n))):
        mm = mmap.mmap(-1, 16)
        out = os.path.join(d, f'w{k}.pkl')
        p = fork.Process(target=_worker, args=(mod, cases, counter, stop, chunk, mm, out, deadline))
        p.start()
        procs.append(p)
        mms.append(mm)
        outs.append(out)
    total = Ctx()
    errors = []
    for k, p in enumerate(procs):
        p.join()
        if p.exitcode == 0 and os.path.exists(outs[k]):
            with open(outs[k], 'rb') as f:
                c = pickle.load(f)
            total.counts += c.counts
            total.states |= c.states
            total.nontrivial |= c.nontrivial
            total.outcomes += c.outcomes
            total.violations += c.violations
            total.samples += c.samples
        else:
            i = struct.unpack('q', mms[k][:8])[0]
            if p.exitcode in (-signal.SIGSEGV, -signal.SIGABRT, -signal.SIGFPE, -signal.SIGBUS, -signal.SIGILL) and i >= 0:
                total.violations.append((i, cases[i], f'crash {signal.Signals(-p.exitcode).name}',
                                         f'the process died with signal {signal.Signals(-p.exitcode).name} in this case'))
            else:
                errors.append(f'worker {k} ended with {p.exitcode} at case {cases[i] if i >= 0 else None}')
    return cases, total, errors


def load_known(pid):
    path = os.path.join(HERE, 'known_findings.json')
    if not os.path.exists(path):
        return []
    return [k for k in json.load(open(path)).get('findings', []) if k['property'] == pid]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('id')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--replay')
    ap.add_argument('--case', help='run one case given as JSON')
    ap.add_argument('--budget', type=float, default=None)
    a = ap.parse_args()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    from . import env

    try:
        env.prepare()
    except env.BuildError as e:
        print(e)
        sys.exit(2)
    sys.unraisablehook = lambda u: None
    # no check may write into the tree or depend on the current directory
    os.chdir(env.scratch())
    mod = importlib.import_module('mc.checks.' + a.id.lower())
    if hasattr(mod, 'setup'):
        mod.setup(a.tier)
    if a.replay or a.case:
        case = json.loads(a.case) if a.case else json.load(open(os.path.join(HERE, a.replay)))['case']
        signal.signal(signal.SIGALRM, _alarm)
        ctx = Ctx()
        _execute(mod, 0, case, ctx)
        for _, _, sig, msg in ctx.violations:
            print(f'{sig}\n{msg}')
        print('violated' if ctx.violations else 'held')
        _exit(1 if ctx.violations else 0)
    budget = a.budget or (780 if a.tier == 'quick' else 6 * 3600)
    cases, total, errors = explore(mod, a.tier, budget)
    wall = time.time() - t0
    done = total.counts['done']
    total.violations.sort(key=lambda v: (v[0], v[2]))
    known = load_known(a.id)
    new, seen_known = [], {}
    for v in total.violations:
        for k in known:
            if v[2] == k['sig'] and ('case' not in k or k['case'] == v[1]):
                seen_known.setdefault(k['sig'], k)
                break
        else:
            new.append(v)
    capped = done < len(cases) and not new
    samples = total.samples[:6]
    if not samples:
        samples = [cases[i] for i in sorted({0, len(cases) // 2, len(cases) - 1})] if cases else []
    level = getattr(mod, 'LEVEL', 'model_checking')
    cov = dict(evaluations=total.counts['evaluations'], distinct_nontrivial=len(total.nontrivial), rule=mod.RULE,
               samples=[json.loads(json.dumps(s, default=str)) for s in samples],
               states=len(total.states), transitions=total.counts['transitions'],
               traces_validated_against_impl=total.counts['traces'],
               cases_in_bound=len(cases), cases_completed=done,
               exhaustive=bool(done == len(cases) and not errors), outcomes=dict(total.outcomes.most_common(60)))
    if capped:
        cov['cap'] = f'time budget reached: the first cases in order were explored ({done} of {len(cases)})'
    ev = dict(property=a.id, tier=a.tier, seed=seed, level=level, coverage=cov,
              assumptions=list(getattr(mod, 'ASSUMPTIONS', [])), wall_s=round(wall, 2), violations=len(new))
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', a.id + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    for k in known:
        if k['sig'] in seen_known:
            print(f"KNOWN-FINDING: property={a.id} {k['what']}")
    print(f'{a.id} {a.tier}: {done}/{len(cases)} cases, {total.counts["transitions"]} transitions, {len(total.states)} states, '
          f'{total.counts["traces"]} traces compared, {len(total.nontrivial)} distinct non-trivial, {wall:.1f}s'
          + (' (CAPPED)' if capped else ''))
    for e in errors:
        print('ERROR', e)
    if new:
        rd = os.path.join('evidence', 'replay')
        os.makedirs(os.path.join(HERE, rd), exist_ok=True)
        sigs = set()
        first = None
        for n, (i, case, sig, msg) in enumerate(new):
            if sig in sigs or len(sigs) > 8:
                continue
            sigs.add(sig)
            path = os.path.join(rd, f'{a.id}-{len(sigs)}.json')
            with open(os.path.join(HERE, path), 'w') as f:
                json.dump(dict(property=a.id, case=case, sig=sig, message=msg, replay=f'./run {a.id} --replay {path}'), f, indent=1)
            first = first or path
            print(f'-- case {json.dumps(case)[:600]}\n   sig: {sig}\n   ' + msg.replace('\n', '\n   ')[:1500])
        print(f'VIOLATION property={a.id} replay={first}')
        _exit(1)
    _exit(2 if errors else 0)


def _exit(rc):
    from . import env

    sys.stdout.flush()
    sys.stderr.flush()
    os.chdir('/')
    if env._scratch:
        import shutil

        shutil.rmtree(env._scratch, ignore_errors=True)
    os._exit(rc)


if __name__ == '__main__':
    sys.modules['mc.core'] = sys.modules['__main__']
    main()
