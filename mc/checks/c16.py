"""C16: qubit-operator algebra and time evolution against the matrices they denote."""
import cmath
import copy
import itertools
import math

import numpy as np

from mc import ref, sims

ID = 'C16'
RULE = ('all Pauli terms on up to 3 qubits x coefficients: construction in every notation; all pairs of one- and two-term operators under every operation, in place, out of place and aliased, against '
        'their matrices; all operators as gates and all Hamiltonians of up to two (three) terms as time evolutions on both simulators x register layouts x controls; all malformed inputs. '
        'Non-trivial: operator is not a multiple of the identity')
ASSUMPTIONS = ['a term names each qubit at most once, as documented']
CHUNK = 4

PAULIS = 'IXYZ'
COEFF = [1.0, -0.5, 2j, 0.3 + 0.4j, 0.0, 3]


def term_of(word):
    """'XIZ' -> ((0,'X'),(2,'Z'))"""
    return tuple((i, p) for i, p in enumerate(word) if p != 'I')


def words(n):
    return [''.join(w) for w in itertools.product(PAULIS, repeat=n)]


def mat(terms, n):
    return ref.pauli_matrix(terms, n)


def Q(terms):
    from projectq.ops import QubitOperator

    q = QubitOperator()
    for t, c in terms.items():
        q += QubitOperator(t, c)
    return q


def two_term(tier):
    """operators with one and two terms on two qubits"""
    ws = words(2)
    ops = [{term_of(w): c} for w in ws for c in (1.0, -1.0, 2j)]
    ops += [{term_of(a): 1.0, term_of(b): c} for a, b in itertools.combinations(ws if tier != 'quick' else ws[::2] + ['IX', 'ZZ'], 2) for c in ((-1.0, 1.0, .5j) if tier != 'quick' else (-1.0,))]
    return ops + [{}]


def cases(tier):
    T = tier != 'quick'
    out = [['build', w] for w in words(3) + (words(4) if T else [])]
    ops = two_term(tier)
    out += [['pair', tier, i] for i in range(len(ops))]
    out += [['single', tier, i] for i in range(len(ops))]
    out += [['malformed', i] for i in range(len(malformed()))]
    for core in ('cpp', 'py'):
        for w in words(2) + (words(3) if T else ['XYZ', 'ZIX', 'YIY', 'IIX', 'ZZZ', 'XXI']):
            for nc in (0, 1, 2):
                out.append(['gate', core, w, nc])
        for nt in (1, 2) + ((3,) if T else ()):
            ws = words(2) if nt < 3 else words(2)[::2] + ['ZZ', 'IX']
            for k in itertools.combinations(ws, nt):
                out.append(['evolve', core, list(k), 2])
        for k in [('XIZ', 'ZIX'), ('XYZ',), ('ZZI', 'IXX'), ('YII', 'IIY'), ('XXX', 'ZZI', 'III'), ('IZI',), ('XII', 'IYI', 'IIZ')]:
            out.append(['evolve', core, list(k), 3])
        out.append(['evolve', core, [], 2])
        for i in range(len(SEQ)):
            out.append(['seq', core, i])
    hs = ham(tier)
    out += [['merge', tier, i] for i in range(len(hs))]
    return out


def run(case, ctx):
    return globals()['run_' + case[0]](case, ctx)


def run_build(case, ctx):
    """every notation of a term and its text denote the same operator"""
    from projectq.ops import QubitOperator

    w = case[1]
    t = term_of(w)
    n = len(w)
    for c in COEFF:
        variants = []
        for perm in itertools.permutations(t):
            variants.append(('tuple', QubitOperator(tuple(perm), c)))
            variants.append(('string', QubitOperator(' '.join(f'{p}{i}' for i, p in perm), c)))
            variants.append(('scaled', c * QubitOperator(tuple(perm))))
            variants.append(('product', QubitOperator((), c)))
            for i, p in perm:
                variants[-1][1].__imul__(QubitOperator(((i, p),)))
        want = mat({t: c}, n)
        for name, q in variants:
            ctx.trace()
            ctx.tr()
            if any(list(k) != sorted(k) or any(p not in 'XYZ' for _, p in k) for k in q.terms):
                ctx.fail(f'{name} {w} {c}', f'terms {q.terms} not sorted')
            if not np.allclose(mat(q.terms, n), want):
                ctx.fail(f'{name} {w} {c}', f'denotes {q.terms}')
            for name2, q2 in variants[:1]:
                if not (q.isclose(q2) and q2.isclose(q) and q == q2 and hash(q) == hash(q2)):
                    ctx.fail(f'{name} {w} {c}', f'{q} and {q2} compare different or hash differently')
            bad = text(q, n)
            if bad:
                ctx.fail(f'text {name} {w} {c}', bad)
        if t:
            ctx.key((w, c))


def parse(s):
    """the operator a printed text denotes"""
    terms = {}
    if s == '0':
        return terms
    for part in s.split('+\n'):
        bits = part.split()
        c = complex(bits[0])
        ops = tuple((int(x[1:]), x[0]) for x in bits[1:] if x != 'I')
        terms[ops] = terms.get(ops, 0) + c
    return terms


def text(q, n):
    for s in (str(q), repr(q)):
        try:
            got = parse(s)
        except Exception as e:  # noqa
            return f'text {s!r} not readable: {e!r}'
        if set(got) != set(q.terms) or any(abs(got[k] - q.terms[k]) > 1e-12 for k in got):
            return f'text {s!r} for {q.terms}'
    return None


def run_single(case, ctx):
    from projectq.ops import NotInvertible

    d = two_term(case[1])[case[2]]
    n = 2
    M = mat(d, n)
    base = Q(d)

    def check(what, q, want):
        ctx.trace()
        ctx.tr()
        if not np.allclose(mat(q.terms, n), want, atol=1e-12):
            ctx.fail(f'{what} of {d}', f'gives {q.terms}')
        if base.terms != d:
            ctx.fail(f'{what} of {d}', f'changed the operand to {base.terms}')
    for c in COEFF + [1, -1, 1e-3, np.float64(.25)]:
        check(f'*{c}', base * c, M * c)
        if not isinstance(c, np.generic):
            check(f'{c}*', c * base, M * c)
        q = copy.deepcopy(base)
        q *= c
        check(f'*={c}', q, M * c)
        if c:
            check(f'/{c}', base / c, M / c)
            q = copy.deepcopy(base)
            q /= c
            check(f'/={c}', q, M / c)
    check('neg', -base, -M)
    # aliases
    for what, f, want in (('a+=a', lambda q: q.__iadd__(q), 2 * M), ('a-=a', lambda q: q.__isub__(q), 0 * M), ('a*=a', lambda q: q.__imul__(q), M @ M), ('a+a', lambda q: q + q, 2 * M), ('a-a', lambda q: q - q, 0 * M),
                          ('a*a', lambda q: q * q, M @ M)):
        check(what, f(copy.deepcopy(base)), want)
    # inverse
    unit = len(d) == 1 and abs(abs(list(d.values())[0]) - 1) < 1e-12
    try:
        inv = base.get_inverse()
        if not unit:
            ctx.fail(f'inverse of {d}', f'not refused: {inv.terms}')
        check('inverse', inv, np.linalg.inv(M))
    except NotInvertible:
        if unit:
            ctx.fail(f'inverse of {d}', 'refused')
    # compress
    for tol in (1e-12, 1e-3, 0.0, .6):
        for extra in ({}, {term_of('YY'): 1e-13}, {term_of('YY'): 1e-4 + 1e-4j}, {term_of('YY'): 2 + 1e-13j}, {term_of('YY'): .5 + 1e-4j}, {term_of('YY'): 1e-4 + .7j}, {term_of('YY'): -1e-4}):
            dd = dict(d)
            for k, v in extra.items():
                dd[k] = v
            q = Q(dd)
            start = dict(q.terms)
            q.compress(abs_tol=tol)
            ctx.trace()
            want = {}
            for k, v in start.items():
                v = complex(v)
                if abs(v.imag) <= tol:
                    v = complex(v.real)
                if abs(v) > tol:
                    want[k] = v
            if set(want) != set(q.terms) or any(want[k] != q.terms[k] for k in want) or any(isinstance(v, complex) and v.imag == 0 for v in q.terms.values()):
                ctx.fail(f'compress({tol}) of {dd}', f'gives {q.terms}, expected {want}')
    bad = text(base, n)
    if bad:
        ctx.fail(f'text of {d}', bad)
    if any(d):
        ctx.key(str(d))


def run_pair(case, ctx):
    from projectq.ops import NotMergeable

    ops = two_term(case[1])
    d = ops[case[2]]
    n = 2
    A = mat(d, n)
    small = 1e-13
    for e in ops:
        B = mat(e, n)
        ctx.trace()
        a, b = Q(d), Q(e)

        def intact(what):
            if a.terms != d or b.terms != e:
                ctx.fail(f'{d} {what} {e}', f'operands became {a.terms}, {b.terms}')
        for what, f, want in (('+', lambda x, y: x + y, A + B), ('-', lambda x, y: x - y, A - B), ('*', lambda x, y: x * y, A @ B)):
            ctx.tr()
            r = f(a, b)
            intact(what)
            if not np.allclose(mat(r.terms, n), want, atol=1e-12):
                ctx.fail(f'{d} {what} {e}', f'gives {r.terms}')
            x, y = Q(d), Q(e)
            z = x.__iadd__(y) if what == '+' else x.__isub__(y) if what == '-' else x.__imul__(y)
            if z is not x or y.terms != e or x.terms != r.terms:
                ctx.fail(f'{d} {what}= {e}', f'gives {x.terms}, other operand {y.terms}; out of place {r.terms}')
            # results are independent of the operands
            r += Q({term_of('YX'): 5.0})
            x += Q({term_of('YX'): 5.0})
            r *= 2
            intact(what + ' then change of the result')
            if y.terms != e:
                ctx.fail(f'{d} {what}= {e}', 'operand changed with the result')
        close = np.allclose(A, B, atol=1e-9)
        if a.isclose(b) != close or b.isclose(a) != close:
            ctx.fail(f'{d} isclose {e}', f'{a.isclose(b)}, {b.isclose(a)}')
        if (a == b) != (d == e) or (a != b) == (d == e):
            ctx.fail(f'{d} == {e}', f'{a == b}')
        if a == b and hash(a) != hash(b):
            ctx.fail(f'hash of {d} and {e}', 'differ')
        if close:  # the same operator built in the opposite order, with other number types
            c = Q(dict(reversed([(k, complex(v)) for k, v in e.items()])))
            if not (c == a and a == c and hash(a) == hash(c)):
                ctx.fail(f'hash/eq of {d} built in another order', f'{c == a}, {hash(a) == hash(c)}')
        # nearly equal and slightly different
        for k in list(e)[:1]:
            f = dict(e)
            f[k] = f[k] + small
            if Q(f).isclose(b) is not True or b.isclose(Q(f)) is not True:
                ctx.fail(f'{f} isclose {e}', 'False')
            f[k] = e[k] + 1e-3
            if Q(f).isclose(b) or b.isclose(Q(f)):
                ctx.fail(f'{f} isclose {e}', 'True')
            if not (b.isclose(Q(f), abs_tol=1e-2) and Q(f).isclose(b, rel_tol=1e-2)):
                ctx.fail(f'{f} isclose {e} with tolerance', 'False')
        try:
            g = a.get_merged(b)
        except NotMergeable:
            if len(d) == len(e) == 1:
                ctx.fail(f'{d} merged with {e}', 'refused')
        else:
            if not (len(d) == len(e) == 1):
                ctx.fail(f'{d} merged with {e}', 'not refused')
            elif not np.allclose(mat(g.terms, n), B @ A):
                ctx.fail(f'{d} merged with {e}', f'gives {g.terms}')
            intact('merge')
        if any(d) and any(e):
            ctx.key((case[2], str(e)))


def malformed():
    from projectq.ops import X, QubitOperator

    q = lambda *a: (lambda: QubitOperator(*a))  # noqa: E731
    op = QubitOperator('X0 Y1')
    two = QubitOperator('X0') + QubitOperator('Y1')
    bad = object()
    out = [(f'QubitOperator{a}', q(*a)) for a in [('X',), ('0',), ('X-1',), ('A0',), ('x0',), ('I0',), ('X0 Q1',), ('X0,Y1',), ('XY',), ('X 0',), ([(0, 'X')],), (((0, 'X'), [1, 'Y']),), (((0, 'A'),),), (((0, 'XY'),),),
                                                  (((0, ''),),), (((0, 'I'),),), (((-1, 'X'),),), (((.5, 'X'),),), ((('X', 0),),), (((0, 'X', 1),),), (((0,),),), ((0, 'X'),), (5,), (0,), (1.5,), ({},), ('X0', 'a'),
                                                  ('X0', None), ('X0', [1]), (((0, 'X'),), '2'), ((), bad), (((0, None),),), (((None, 'X'),),)]]
    for c in ('a', None, [1], bad, (), {}):
        out += [(f'op * {c!r:.20}', lambda c=c: op * c), (f'{c!r:.20} * op', lambda c=c: c * op), (f'op / {c!r:.20}', lambda c=c: op / c), (f'op *= {c!r:.20}', lambda c=c: op.__imul__(c)),
                (f'op /= {c!r:.20}', lambda c=c: op.__itruediv__(c)), (f'op + {c!r:.20}', lambda c=c: op + c), (f'op - {c!r:.20}', lambda c=c: op - c), (f'op += {c!r:.20}', lambda c=c: op.__iadd__(c)),
                (f'op -= {c!r:.20}', lambda c=c: op.__isub__(c))]
    out += [('op / op', lambda: op / op), ('op + 1', lambda: op + 1), ('op - 1', lambda: op - 1), ('1 / op', lambda: 1 / op), ('two.get_inverse', two.get_inverse), ('(2*op).get_inverse', (2 * op).get_inverse),
            ('merge two', lambda: two.get_merged(op)), ('merge with two', lambda: op.get_merged(two)), ('merge with X', lambda: op.get_merged(X))]
    # as gates
    out += [('gate two terms', ('g', two, 2)), ('gate no terms', ('g', QubitOperator(), 2)), ('gate not unit', ('g', 2 * op, 2)), ('gate almost unit', ('g', 1.001 * op, 2)), ('gate too few qubits', ('g', op, 1)),
            ('gate far qubit', ('g', QubitOperator('X5'), 3)), ('gate on two registers', ('g2', op, 2))]
    from projectq.ops import TimeEvolution

    te = lambda *a: (lambda: TimeEvolution(*a))  # noqa: E731
    out += [('te complex time', te(1j, op)), ('te text time', te('1', op)), ('te no operator', te(1, X)), ('te text operator', te(1, 'X0')), ('te non-hermitian', te(1, 1j * op)),
            ('te partly non-hermitian', te(1, op + (1 + 1e-3j) * QubitOperator('Z0'))), ('te too few qubits', ('g', TimeEvolution(1, op), 1)), ('te far qubit', ('g', TimeEvolution(1, QubitOperator('X5') + op), 3)),
            ('te on two registers', ('g2', TimeEvolution(1, op), 2)), ('te merge with X', lambda: TimeEvolution(1, op).get_merged(X)), ('te merge with operator', lambda: TimeEvolution(1, op).get_merged(op))]
    return out


def run_malformed(case, ctx):
    from projectq import MainEngine
    from mc import pq

    name, f = malformed()[case[1]]
    ctx.trace()
    ctx.key(name)
    if callable(f):
        try:
            r = f()
        except Exception:  # noqa
            return
        if r is NotImplemented:
            return
        ctx.fail(name, f'not refused: {r!r}')
        return
    kind, g, n = f
    rec = pq.Recorder()
    eng = MainEngine(rec, [])
    q = eng.allocate_qureg(n)
    k = len(rec.cmds)
    try:
        if kind == 'g':
            g | q
        else:
            g | (q, eng.allocate_qureg(n))
    except Exception:  # noqa
        pass
    else:
        ctx.fail(name, f'not refused: {[str(c) for c in rec.cmds[k:]]}')
    sims.sink(eng)


def start(core, n, nc):
    """an engine with n + nc qubits in a generic state: engine, sim, the data qubits, controls, state (ids order)"""
    from projectq import MainEngine
    from projectq.cengines import AutoReplacer, DecompositionRuleSet
    from projectq.setups import decompositions

    sim = sims.make(core)
    eng = MainEngine(sim, [AutoReplacer(DecompositionRuleSet(modules=[decompositions]))])
    q = list(eng.allocate_qureg(n + nc))
    psi = np.array([1 + .3 * k + (.2j * ((k * 7) % 5)) for k in range(2 ** (n + nc))])
    psi /= np.linalg.norm(psi)
    eng.flush()
    sim.set_wavefunction(list(psi), q)
    return eng, sim, q, psi


def layouts(n, extra):
    """register as lists of positions: the n data qubits among n + extra"""
    a = list(range(n))
    return [a, a[::-1], list(range(extra, n + extra)), ([n + extra - 1] + list(range(n + extra - 1)))[:n]]


def act(M, n, total, reg, ctl, cval, psi):
    s = ref.State.inputs(range(total))
    s.apply(M, reg, ctl, cval)
    return s.psi.reshape(2 ** total, -1) @ psi


def finish(eng, q):
    while q:
        q.pop().id = -1
    sims.sink(eng)


def run_gate(case, ctx):
    from projectq.meta import Control
    from projectq.ops import QubitOperator

    _, core, w, nc = case
    n = len(w)
    for c in (1.0, -1, 1j, cmath.exp(.7j)):
        M = mat({term_of(w): c}, n)
        for reg in layouts(n, nc + 1):
            rest = [i for i in range(n + nc + 1) if i not in reg]
            ctl = rest[:nc]
            for cs in itertools.product((0, 1), repeat=nc):
                eng, sim, q, psi = start(core, n + 1, nc)
                with Control(eng, [q[i] for i in ctl], ''.join(map(str, cs))):
                    QubitOperator(term_of(w), c) | [q[i] for i in reg]
                eng.flush()
                got = sims.vector(sim, [x.id for x in q])
                want = act(M, n, n + nc + 1, reg, ctl, cs, psi)
                ctx.trace()
                ctx.tr()
                if set(w) != {'I'}:
                    ctx.key((core, w, str(c), str(reg), cs))
                if not np.allclose(got, want, atol=1e-9):
                    ctx.fail(f'{core} {c}*{w} on {reg} controls {ctl}={cs}', f'{np.round(got, 4)} expected {np.round(want, 4)}')
                if not nc:  # expectation value and application of the (rescaled) operator
                    if isinstance(c, (int, float)) or c == 1:
                        h = Q({term_of(w): .5 * c, (): .25})
                        e = sim.get_expectation_value(h, [q[i] for i in reg])
                        want_e = np.vdot(got, act(mat(h.terms, n), n, n + 1, reg, [], [], got))
                        if abs(e - want_e) > 1e-9:
                            ctx.fail(f'{core} expectation {h} on {reg}', f'{e} expected {want_e}')
                    h = Q({term_of(w): 2 * c, term_of('Z' * n): .5, (): .25j})
                    hc = copy.deepcopy(h)
                    sim.apply_qubit_operator(h, [q[i] for i in reg])
                    want2 = act(mat(h.terms, n), n, n + 1, reg, [], [], got)
                    if h.terms != hc.terms or not np.allclose(sims.vector(sim, [x.id for x in q]), want2, atol=1e-9):
                        ctx.fail(f'{core} apply {h} on {reg}', 'wrong state or changed operator')
                finish(eng, q)


def run_evolve(case, ctx):
    from projectq.meta import Control, Dagger
    from projectq.ops import TimeEvolution

    _, core, ws, n = case
    co = [.7, -1.3, .4][:len(ws)]
    H = {term_of(w): c for w, c in zip(ws, co)}
    for t in (0, .37, -1.9, 12):
        for nc in (0, 1, 2):
            for reg in layouts(n, nc + 1)[:: 1 if nc < 2 else 3]:
                rest = [i for i in range(n + nc + 1) if i not in reg]
                ctl = rest[:nc]
                for cs in itertools.product((0, 1), repeat=nc):
                    dag = (sum(cs) + nc) % 2 == 1
                    M = ref.expm_h(mat(H, n), -t if dag else t)
                    eng, sim, q, psi = start(core, n + 1, nc)
                    h = Q(H)
                    g = TimeEvolution(t, h)
                    h *= 3  # the gate has its own copy
                    with Control(eng, [q[i] for i in ctl], ''.join(map(str, cs))):
                        if dag:
                            with Dagger(eng):
                                g | [q[i] for i in reg]
                        else:
                            g | [q[i] for i in reg]
                    eng.flush()
                    got = sims.vector(sim, [x.id for x in q])
                    want = act(M, n, n + nc + 1, reg, ctl, cs, psi)
                    ctx.trace()
                    ctx.tr()
                    ctx.key((core, tuple(ws), t, str(reg), cs))
                    if not np.allclose(got, want, atol=1e-7):
                        ctx.fail(f'{core} evolution {H} t={t}{" dagger" if dag else ""} on {reg} controls {ctl}={cs}', f'{np.round(got, 4)} expected {np.round(want, 4)}')
                    finish(eng, q)


# sequences of operators and evolutions, with an optimizer in front
SEQ = [[('t', .3, 'ZZ'), ('t', .4, 'ZZ')], [('q', 'XY'), ('q', 'XY')], [('q', 'XY'), ('q', 'YX')], [('q', 'XZ'), ('t', .3, 'ZZ'), ('q', 'XZ')], [('t', .3, 'XX'), ('t', -.3, 'XX')], [('t', .3, 'XX'), ('t', .3, 'ZZ')],
       [('q', 'XY'), ('q', 'ZY'), ('q', 'YY')], [('t2', .3), ('t2', .5)], [('t2', .3), ('t2', -.3)], [('t2', .3), ('t2h', .5)], [('q', 'XI'), ('q', 'IX'), ('q', 'XX')], [('t2h', .2), ('t2', .3), ('t', .1, 'ZZ')], [('t0', .3), ('t0', .3)]]


def run_seq(case, ctx):
    from projectq import MainEngine
    from projectq.cengines import AutoReplacer, DecompositionRuleSet, LocalOptimizer
    from projectq.meta import Control
    from projectq.ops import QubitOperator, TimeEvolution
    from projectq.setups import decompositions

    _, core, i = case
    for reg in ([0, 1], [2, 0]):
        for reg2 in ([0, 1], [1, 0], [2, 0], [1, 2]):
            for nc in (0, 1):
                for opt in (0, 1, 5):
                    sim = sims.make(core)
                    eng = MainEngine(sim, ([LocalOptimizer(opt)] if opt else []) + [AutoReplacer(DecompositionRuleSet(modules=[decompositions]))])
                    q = list(eng.allocate_qureg(4))
                    psi = np.array([1 + .3 * k + (.2j * ((k * 7) % 5)) for k in range(16)])
                    psi /= np.linalg.norm(psi)
                    eng.flush()
                    sim.set_wavefunction(list(psi), q)
                    want = psi
                    for k, g in enumerate(SEQ[i]):
                        r = reg if k % 2 == 0 else reg2
                        if g[0] == 'q':
                            M = mat({term_of(g[1]): 1}, 2)
                            G = QubitOperator(term_of(g[1]))
                        else:
                            h = {'t': lambda: {term_of(g[2]): .8}, 't2': lambda: {term_of('XY'): .5, term_of('ZI'): -.3}, 't2h': lambda: {term_of('XY'): -1., term_of('ZI'): .6}, 't0': lambda: {term_of('XY'): .5, term_of('ZI'): 0.}}[g[0]]()
                            M = ref.expm_h(mat(h, 2), g[1])
                            G = TimeEvolution(g[1], Q(h))
                        ctl = [3][:nc]
                        with Control(eng, [q[j] for j in ctl]):
                            G | [q[j] for j in r]
                        want = act(M, 2, 4, r, ctl, [1] * nc, want)
                    eng.flush()
                    got = sims.vector(sim, [x.id for x in q])
                    ctx.trace()
                    ctx.key((core, i, str(reg), str(reg2), nc, opt))
                    if not np.allclose(got, want, atol=1e-7):
                        ctx.fail(f'{core} {SEQ[i]} on {reg}/{reg2} controls {nc} optimizer {opt}', f'{np.round(got, 4)} expected {np.round(want, 4)}')
                    finish(eng, q)


def ham(tier):
    ws = words(2) if tier != 'quick' else ['II', 'XI', 'IZ', 'XY', 'ZZ', 'YX']
    out = [{}]
    for a in ws:
        out += [{term_of(a): c} for c in (1.0, -.5, 0.0)]
    for a, b in itertools.combinations(ws, 2):
        out += [{term_of(a): .5, term_of(b): 1.0}, {term_of(a): -1.0, term_of(b): -2.0}, {term_of(a): .5, term_of(b): 0.0}, {term_of(a): .5, term_of(b): -1.0}, {term_of(a): 0.0, term_of(b): 0.0}]
    return out


def run_merge(case, ctx):
    """whatever two evolutions are merged into is their product; inverse, equality and hash agree with the matrices"""
    from projectq.ops import NotMergeable, TimeEvolution

    hs = ham(case[1])
    d = hs[case[2]]
    for e in hs:
        if len(hs) > 200 and set(e) != set(d) and len(e) == len(d) == 2 and (hs.index(e) + case[2]) % 3:
            continue
        for s, t in ((.3, .5), (.3, 0), (0, -.7), (-1.1, 2)):
            a, b = TimeEvolution(s, Q(d)), TimeEvolution(t, Q(e))
            A, B = ref.expm_h(mat(d, 2), s), ref.expm_h(mat(e, 2), t)
            ctx.trace()
            ctx.tr()
            try:
                m = a.get_merged(b)
            except NotMergeable:
                if d == e:
                    ctx.fail(f'merge {s},{d} with {t},{e}', 'refused for equal Hamiltonians')
            else:
                M = ref.expm_h(mat(m.hamiltonian.terms, 2), m.time)
                if not np.allclose(M, B @ A, atol=1e-9):
                    ctx.fail(f'merge {s},{d} with {t},{e}', f'gives {m}')
                ctx.key((case[2], str(e), s, t))
            if a.hamiltonian.terms != d or b.hamiltonian.terms != e or (a.time, b.time) != (s, t):
                ctx.fail(f'merge {s},{d} with {t},{e}', 'changed a gate')
            if (a == b) and (not np.allclose(A, B) or hash(a) != hash(b)):
                ctx.fail(f'equality of {a} and {b}', 'equal gates with other matrices or hashes')
            if s == .3 and t == .5 and d == e:
                x = TimeEvolution(s, Q(dict(reversed(list(e.items())))))
                if not x == a or x != a or hash(x) != hash(a) or a == b:
                    ctx.fail(f'equality of {a}', f'{x == a}, {hash(x) == hash(a)}, {a == b}')
    for t in (.3, -2, 0):
        g = TimeEvolution(t, Q(d))
        inv = g.get_inverse()
        if not np.allclose(ref.expm_h(mat(inv.hamiltonian.terms, 2), inv.time) @ ref.expm_h(mat(d, 2), t), np.eye(4)):
            ctx.fail(f'inverse of {g}', f'{inv}')
        inv.hamiltonian.terms[((0, 'Z'),)] = 7.0
        if g.hamiltonian.terms != d:
            ctx.fail(f'inverse of {g}', 'shares its Hamiltonian')
