"""Reference functions of the arithmetic gates, from their documentation. A function maps the list of register values
(LSB first) to the new values; outside the documented domain it returns None."""


def function_of(gate, sizes):
    f = reference(type(gate).__name__, gate, sizes)

    def total(v):
        """identity outside the domain (callers compare inside it)"""
        r = f(list(v))
        return list(v) if r is None else r
    total.partial = f
    return total


def reference(name, gate, sizes):
    n = sizes[0]
    if name == 'AddConstant':
        return lambda v: [(v[0] + gate.a) % 2 ** n]
    if name == 'AddConstantModN':
        return lambda v: [(v[0] + gate.a) % gate.N] if v[0] < gate.N <= 2 ** n else None
    if name == 'MultiplyByConstantModN':
        return lambda v: [v[0] * gate.a % gate.N] if v[0] < gate.N <= 2 ** n else None
    if name == 'AddQuantumGate':
        def add(v):
            s = v[0] + v[1]
            return [v[0], s % 2 ** n] + ([v[2] ^ (s >> n)] if len(v) == 3 else [])
        return add
    if name in ('_InverseAddQuantumGate', 'SubtractQuantumGate'):
        def sub(v):
            return [v[0], (v[1] - v[0]) % 2 ** n] + ([v[2] ^ (v[0] > v[1])] if len(v) == 3 else [])
        return sub
    if name == 'ComparatorQuantumGate':
        return lambda v: [v[0], v[1], v[2] ^ (v[0] > v[1])]
    if name == 'DivideQuantumGate':
        return lambda v: [v[0] % v[2], v[0] // v[2], v[2]] if v[1] == 0 and 0 < v[2] <= v[0] else None
    if name == '_InverseDivideQuantumGate':
        return lambda v: [v[0] + v[1] * v[2], 0, v[2]] if 0 < v[2] and v[0] < v[2] and 0 < v[1] and v[0] + v[1] * v[2] < 2 ** n else None
    if name == 'MultiplyQuantumGate':
        return lambda v: [v[0], v[1], v[0] * v[1]] if v[2] == 0 else None
    if name == '_InverseMultiplyQuantumGate':
        return lambda v: [v[0], v[1], 0] if v[2] == v[0] * v[1] else None
    raise KeyError(name)
