"""The simulators under test: the compiled one, the pure-Python fallback (a second instance of _simulator.py that cannot import
the compiled core), the classical one; and uniform ways to drive them."""
import importlib.util
import os
import sys

import numpy as np

_cache = {}


def module(kind, core=None):
    """projectq/backends/_sim/_simulator.py with the wanted core: 'cpp' (as installed), 'py', or a given core module."""
    if kind == 'cpp':
        from projectq.backends._sim import _simulator

        return _simulator
    if kind in _cache:
        return _cache[kind]
    import projectq.backends._sim as pkg

    name = 'projectq.backends._sim._cppsim'
    attr = pkg.__dict__.pop('_cppsim', None)
    old = sys.modules.get(name)
    sys.modules[name] = core  # None makes the import fail
    try:
        path = os.path.join(os.path.dirname(pkg.__file__), '_simulator.py')
        spec = importlib.util.spec_from_file_location('projectq.backends._sim._simulator_' + kind, path)
        mod = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(mod)
    finally:
        if old is None:
            sys.modules.pop(name, None)
        else:
            sys.modules[name] = old
        if attr is not None:
            pkg._cppsim = attr
    assert mod.FALLBACK_TO_PYSIM == (core is None)
    _cache[kind] = mod
    return mod


class Quiet:
    """The Python simulator announces itself on stdout."""

    def __enter__(self):
        self.old = sys.stdout
        sys.stdout = open(os.devnull, 'w')

    def __exit__(self, *a):
        sys.stdout.close()
        sys.stdout = self.old


def make(kind, fusion=False, seed=1):
    with Quiet():
        return module(kind).Simulator(gate_fusion=fusion, rnd_seed=seed)


def engine(sim, engines=()):
    from projectq import MainEngine

    return MainEngine(sim, list(engines))


def vector(sim, order):
    """State vector with qubit ids order[0] the least significant bit, from cheat()."""
    m, st = sim.cheat()
    st = np.array(st, dtype=complex)
    n = len(m)
    assert st.size == 2 ** n, f'state of size {st.size} for {n} qubits'
    assert sorted(m) == sorted(order), f'simulator holds {sorted(m)}, expected {sorted(order)}'
    assert sorted(m.values()) == list(range(n)), f'positions {m}'
    # axis k of the tensor is position n-1-k
    T = st.reshape((2,) * n)
    return np.transpose(T, [n - 1 - m[q] for q in list(order)[::-1]]).reshape(-1) if n else st


def sink(eng):
    """Disconnect a broken engine so that finalisers do not raise."""
    from . import pq

    s = pq.Recorder()
    s.is_last_engine, s.measure = True, None
    eng.next_engine = s
