"""The reference model: textbook matrices and a small, plain state-vector interpreter (no projectq code).

A stream is a list of tuples
   ('u', M, targets, controls, cvals)   matrix on targets (targets[0] = least significant index bit), controls with required bits
   ('f', fn, regs, controls, cvals)     classical reversible map: fn(list of ints) -> list of ints on registers (LSB first)
   ('alloc', q) ('dealloc', q) ('meas', q)
Qubit ids are any hashables.
"""
import cmath
import math

import numpy as np

I2 = np.eye(2, dtype=complex)
X = np.array([[0, 1], [1, 0]], dtype=complex)
Y = np.array([[0, -1j], [1j, 0]], dtype=complex)
Z = np.array([[1, 0], [0, -1]], dtype=complex)
H = np.array([[1, 1], [1, -1]], dtype=complex) / math.sqrt(2)
S = np.diag([1, 1j]).astype(complex)
T = np.diag([1, cmath.exp(1j * math.pi / 4)]).astype(complex)
SQX = 0.5 * np.array([[1 + 1j, 1 - 1j], [1 - 1j, 1 + 1j]], dtype=complex)
SWAP = np.array([[1, 0, 0, 0], [0, 0, 1, 0], [0, 1, 0, 0], [0, 0, 0, 1]], dtype=complex)
SQSWAP = np.array([[1, 0, 0, 0], [0, .5 + .5j, .5 - .5j, 0], [0, .5 - .5j, .5 + .5j, 0], [0, 0, 0, 1]], dtype=complex)
PAULI = {'I': I2, 'X': X, 'Y': Y, 'Z': Z}


def rot(P, a):
    """exp(-i a/2 P) for P*P = 1."""
    return math.cos(a / 2) * np.eye(len(P)) - 1j * math.sin(a / 2) * P


def phase(a):
    return np.diag([1, cmath.exp(1j * a)])


def ph(a):
    return cmath.exp(1j * a) * I2


FIXED = {'HGate': H, 'XGate': X, 'YGate': Y, 'ZGate': Z, 'SGate': S, 'TGate': T, 'SqrtXGate': SQX, 'SwapGate': SWAP,
         'SqrtSwapGate': SQSWAP}
ANGLE = {'Rx': lambda a: rot(X, a), 'Ry': lambda a: rot(Y, a), 'Rz': lambda a: rot(Z, a), 'R': phase, 'Ph': ph,
         'Rxx': lambda a: rot(np.kron(X, X), a), 'Ryy': lambda a: rot(np.kron(Y, Y), a), 'Rzz': lambda a: rot(np.kron(Z, Z), a)}


def pauli_matrix(terms, n):
    """terms: {((idx,'X'),...): coeff} on n qubits, qubit 0 = least significant."""
    M = np.zeros((2 ** n, 2 ** n), dtype=complex)
    for term, c in terms.items():
        ops = [I2] * n
        for i, p in term:
            ops[i] = ops[i] @ PAULI[p]
        m = np.eye(1)
        for o in ops:
            m = np.kron(o, m)
        M = M + c * m
    return M


def bitrev(x, n):
    return int(format(x, f'0{n}b')[::-1], 2)


def qft(n):
    """Discrete Fourier transform whose output qubits are left in reversed order ("the final swaps are not included")."""
    N = 2 ** n
    w = cmath.exp(2j * math.pi / N)
    return np.array([[w ** ((bitrev(j, n) * k) % N) for k in range(N)] for j in range(N)]) / math.sqrt(N)


def expm_h(Hm, t):
    """exp(-i t H) for hermitian H."""
    w, v = np.linalg.eigh(Hm)
    return (v * np.exp(-1j * t * w)) @ v.conj().T


def perm_matrix(f, sizes):
    """matrix of a classical map on registers (register 0 holds the least significant bits)."""
    n = sum(sizes)
    M = np.zeros((2 ** n, 2 ** n), dtype=complex)
    for x in range(2 ** n):
        v, s = [], 0
        for k in sizes:
            v.append((x >> s) & (2 ** k - 1))
            s += k
        y = f(v)
        r, s = 0, 0
        for k, yk in zip(sizes, y):
            r |= (yk & (2 ** k - 1)) << s
            s += k
        M[r, x] = 1
    return M


class State:
    """psi has one axis of length 2 per live qubit, then one batch axis."""

    def __init__(self, ids=(), psi=None):
        self.ids = list(ids)
        self.psi = np.ones(1, dtype=complex) if psi is None else psi

    @classmethod
    def inputs(cls, ids):
        """Batch of all basis states: column b has qubit ids[k] = bit k of b."""
        n = len(ids)
        psi = np.eye(2 ** n, dtype=complex).reshape((2,) * n + (2 ** n,))
        # axis 0 of the reshape is the most significant bit
        return cls(list(ids)[::-1], psi)

    def copy(self):
        return State(self.ids, self.psi.copy())

    def alloc(self, q):
        assert q not in self.ids, f'qubit {q} already live'
        self.psi = np.stack([self.psi, np.zeros_like(self.psi)])
        self.ids.insert(0, q)

    def axis(self, q):
        return self.ids.index(q)

    def apply(self, M, targets, controls=(), cvals=None):
        n = len(self.ids)
        targets, controls = list(targets), list(controls)
        assert len(set(targets + controls)) == len(targets) + len(controls), 'repeated qubit'
        sl = [slice(None)] * (n + 1)
        cvals = [1] * len(controls) if cvals is None else list(cvals)
        for c, v in zip(controls, cvals):
            sl[self.axis(c)] = v
        sub = self.psi[tuple(sl)]
        rest = [q for q in self.ids if q not in controls]
        ax = [rest.index(q) for q in targets[::-1]]  # most significant first
        k = len(ax)
        M = np.asarray(M, dtype=complex)
        assert M.shape == (2 ** k, 2 ** k), f'{M.shape} on {k} qubits'
        moved = np.moveaxis(sub, ax, range(k))
        shp = moved.shape
        new = (M @ moved.reshape(2 ** k, -1)).reshape(shp)
        res = self.psi.copy()
        res[tuple(sl)] = np.moveaxis(new, range(k), ax)
        self.psi = res

    def project(self, q, v):
        a = self.axis(q)
        sl = [slice(None)] * self.psi.ndim
        sl[a] = 1 - v
        self.psi = self.psi.copy()
        self.psi[tuple(sl)] = 0

    def prob(self, q, v):
        a = self.axis(q)
        return float(np.sum(np.abs(np.take(self.psi, v, axis=a)) ** 2))

    def drop(self, q, v):
        """Remove q keeping its component v."""
        a = self.axis(q)
        self.psi = np.take(self.psi, v, axis=a)
        self.ids.pop(a)

    def norm(self):
        return float(np.linalg.norm(self.psi))

    def matrix(self, order):
        """(2^n, batch) array; order[0] is the least significant qubit."""
        assert sorted(map(str, order)) == sorted(map(str, self.ids)), f'{order} vs {self.ids}'
        ax = [self.axis(q) for q in list(order)[::-1]]
        return np.moveaxis(self.psi, ax, range(len(ax))).reshape(2 ** len(ax), -1)

    def vector(self, order):
        return self.matrix(order)[:, 0]


class StreamError(Exception):
    """The stream itself is not a legal history (use of dead qubits, double allocation, ...)."""


def run_stream(stream, inputs=(), outputs=None, dealloc_zero=(), eps=1e-9, cols=None):
    """Interpret a stream. inputs: qubits treated as open legs (their first 'alloc' is skipped).
    Returns {branch key: matrix on outputs}; a branch key is a sorted tuple of ((kind, qubit, occurrence), value).
    Qubits in dealloc_zero (or all, if True) must be |0> when released."""
    st = State.inputs(inputs)
    if cols is not None:  # only these basis inputs
        st.psi = st.psi[..., list(cols)]
    pend = set(inputs)
    br = {(): st}
    occ = {}
    live = set(inputs)
    for op in stream:
        k = op[0]
        if k == 'alloc':
            q = op[1]
            if q in pend:
                pend.discard(q)
                continue
            if q in live:
                raise StreamError(f'qubit {q} allocated twice')
            live.add(q)
            for s in br.values():
                s.alloc(q)
            continue
        qs = [op[1]] if k in ('meas', 'dealloc') else (list(op[2]) if k == 'u' else [x for r in op[2] for x in r]) + list(op[3])
        for q in qs:
            if q not in live:
                raise StreamError(f'{k} uses qubit {q} which is not live')
        if k == 'u':
            for s in br.values():
                s.apply(op[1], op[2], op[3], op[4])
        elif k == 'f':
            sizes = [len(r) for r in op[2]]
            M = perm_matrix(op[1], sizes)
            for s in br.values():
                s.apply(M, [x for r in op[2] for x in r], op[3], op[4])
        elif k in ('meas', 'dealloc'):
            q = op[1]
            name = op[2] if len(op) > 2 else q  # the name under which the event is reported
            ev = (k, name, occ.get((k, name), 0))
            occ[(k, name)] = ev[2] + 1
            new = {}
            for key, s in br.items():
                for v in (0, 1):
                    p = s.prob(q, v)
                    if p < eps:
                        continue
                    if k == 'dealloc' and v == 1 and (dealloc_zero is True or name in dealloc_zero):
                        raise StreamError(f'qubit {q} released while not in |0>')
                    t = s.copy()
                    if k == 'meas':
                        t.project(q, v)
                        new[key + ((ev, v),)] = t
                    else:
                        t.drop(q, v)
                        helper = dealloc_zero is True or name in dealloc_zero
                        new[key if helper else key + ((ev, v),)] = t
            br = new
            if k == 'dealloc':
                live.discard(q)
        else:
            raise AssertionError(k)
    res = {}
    for key, s in br.items():
        o = list(outputs) if outputs is not None else sorted(s.ids, key=str)
        res[tuple(sorted(key, key=str))] = s.matrix(o)
    return res


def same_op(a, b, up_to_phase=False, tol=1e-7):
    """Compare two results of run_stream (or two matrices)."""
    if not isinstance(a, dict):
        a, b = {(): np.asarray(a)}, {(): np.asarray(b)}
    keys = set(a) | set(b)
    shape = next(iter(a.values())).shape if a else None
    f = 1
    if up_to_phase:
        dot = 0
        for k in keys:
            if k in a and k in b and a[k].shape == b[k].shape:
                dot += np.vdot(b[k], a[k])
        if abs(dot) < 1e-12:
            return False
        f = dot / abs(dot)
    for k in keys:
        x, y = a.get(k), b.get(k)
        if x is None:
            x = np.zeros_like(y)
        if y is None:
            y = np.zeros_like(x)
        if x.shape != y.shape or np.max(np.abs(x - f * y), initial=0) > tol:
            return False
    return True
