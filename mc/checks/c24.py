"""C24: compiler passes forward every command, in order, exactly as specified."""
import itertools

from mc import pq, sims

ID = 'C24'
RULE = ('passes: all sequences of at most 4 commands (6 kinds of gates, tags, controls, flush) x all chains of at most 3 of 11 passes (shorter programs for the longest chains), and all ways of grouping '
        'short programs into lists; replacement: all ordered rule sets of at most 3 of 11 rules x 5 availability predicates x 3 choosers, x commands (with inverses, controls, control states, tags) in sequence; '
        'comparison: all pairs of circuits of up to 2 commands over 24 and up to 3 over 9; forwarding engines and availability queries. '
        'Non-trivial: a program with at least one command changed, replaced or refused, or a pair of different circuits')
ASSUMPTIONS = ['user-defined gates, tags, rules and passes of the check stand for those of users; CompareEngine is used as backend or before passes that do not modify commands']
CHUNK = 1

_K = {}


def kinds():
    """Gate classes, tags; built once."""
    if _K:
        return _K
    from projectq.ops import BasicGate, SelfInverseGate

    class P24(BasicGate):
        """Marker: always executable; label > 0, its inverse has the opposite sign."""

        def __init__(self, label):
            super().__init__()
            self.label = label

        def get_inverse(self):
            return P24(-self.label)

        def __eq__(self, other):
            return isinstance(other, P24) and self.label == other.label

        def __hash__(self):
            return hash(self.label)

        def __str__(self):
            return f'P{self.label}'

    class GA24(BasicGate):
        def get_inverse(self):
            return GAinv24()

        def __eq__(self, other):
            return type(self) is type(other)

        def __hash__(self):
            return hash(type(self))

        def __str__(self):
            return type(self).__name__

    class GAinv24(GA24.__bases__[0]):
        def get_inverse(self):
            return GA24()

        __eq__ = GA24.__eq__
        __hash__ = GA24.__hash__
        __str__ = GA24.__str__

    class GB24(GA24):
        pass

    class GS24(SelfInverseGate):
        __eq__ = GA24.__eq__
        __hash__ = GA24.__hash__
        __str__ = GA24.__str__

    class GR24(BasicGate):
        def __init__(self, angle):
            super().__init__()
            self.angle = angle

        def get_inverse(self):
            return GR24(-self.angle)

        def __eq__(self, other):
            return isinstance(other, GR24) and self.angle == other.angle

        def __hash__(self):
            return hash(self.angle)

        def __str__(self):
            return f'GR{self.angle}'

    class GN24(BasicGate):
        __eq__ = GA24.__eq__
        __hash__ = GA24.__hash__
        __str__ = GA24.__str__

    class T1:
        def __eq__(self, other):
            return type(self) is type(other)

        def __ne__(self, other):
            return not self == other

    class T2(T1):
        pass

    class T3:
        __eq__ = T1.__eq__
        __ne__ = T1.__ne__
    _K.update(P=P24, GA=GA24, GAi=GAinv24, GB=GB24, GS=GS24, GR=GR24, GN=GN24, T1=T1, T2=T2, T3=T3)
    return _K


def gate_key(g):
    k = kinds()
    if isinstance(g, k['P']):
        return ('P', g.label)
    if isinstance(g, k['GR']):
        return ('GR', g.angle)
    for n in ('GB', 'GA', 'GAi', 'GS', 'GN'):
        if type(g) is k[n]:
            return (n,)
    nm = type(g).__name__
    if nm == 'DaggeredGate':
        return ('dag',) + gate_key(g.get_inverse())
    return (nm, getattr(g, 'angle', None))


def make_gate(key):
    k = kinds()
    if key[0] == 'dag':
        from projectq.ops import DaggeredGate

        return DaggeredGate(make_gate(key[1:]))
    if key[0] in ('P', 'GR'):
        return k[key[0]](key[1])
    if key[0] == 'XGate':
        from projectq.ops import X

        return X
    return k[key[0]]()


def inverse_key(key):
    if key[0] in ('P', 'GR'):
        return (key[0], -key[1])
    return {'GA': ('GAi',), 'GB': ('GAi',), 'GAi': ('GA',), 'GS': ('GS',), 'GN': ('dag', 'GN'), 'dag': key[1:], 'XGate': key}[key[0]]


def tag_names(tags):
    return tuple(type(t).__name__ for t in tags)


# an abstract command: (gate key, targets, controls, control state, tags)
def read(cmd):
    return (gate_key(cmd.gate), tuple(q.id for r in cmd.qubits for q in r), tuple(q.id for q in cmd.control_qubits), cmd.control_state, tag_names(cmd.tags))


class Sys:
    def __init__(self, engines, available=None, n=3):
        from projectq import MainEngine

        self.rec = pq.Recorder(available)
        self.eng = MainEngine(self.rec, engines)
        self.q = [self.eng.allocate_qubit()[0] for _ in range(n)]
        self.pos = {x.id: i for i, x in enumerate(self.q)}
        self.allocs = list(self.rec.cmds)
        self.rec.cmds.clear()

    def command(self, ab):
        from projectq.ops import Command

        g, t, c, s, tags = ab
        cmd = Command(self.eng, make_gate(g), tuple([self.q[i]] for i in t), [self.q[i] for i in c], [kinds()[x]() if x in kinds() else TAGS[x]() for x in tags], control_state=s)
        return cmd

    def read(self, cmd):
        g, t, c, s, tags = read(cmd)
        return (g, tuple(self.pos.get(x, ('new', x)) for x in t), tuple(self.pos.get(x, ('new', x)) for x in c), s, tags)

    def close(self):
        sims.sink(self.eng)
        for x in self.q:
            x.id = -1


class _Tags(dict):
    def __missing__(self, name):
        from projectq import meta

        return getattr(meta, name)


TAGS = _Tags()
FLUSH = 'flush'


# ---------------------------------------------------------------- chains of passes
def table(c):
    """pass name -> (constructor, model: list of abstract -> list)."""
    from projectq.cengines import AutoReplacer, BasicEngine, CommandModifier, CompareEngine, DecompositionRule, DecompositionRuleSet, DummyEngine, InstructionFilter, TagRemover

    k = kinds()

    def gates(f):
        """model function acting on one abstract command"""
        return lambda cmds, down: [x if x == FLUSH else f(x) for x in cmds]

    def drop(names):
        return gates(lambda x: x[:4] + (tuple(t for t in x[4] if t not in names),))

    def isop(cmd):
        return type(cmd.gate).__name__ not in ('FlushGate', 'AllocateQubitGate', 'DeallocateQubitGate')

    def add_tag(cmd):
        if isop(cmd):
            cmd.tags = cmd.tags + [k['T3']()]
        return cmd

    def relabel(cmd):
        if isop(cmd) and isinstance(cmd.gate, k['P']):
            cmd.gate = k['P'](cmd.gate.label + 100)
        return cmd

    def renew(cmd):
        from projectq.ops import Command

        if isop(cmd) and len(cmd.control_qubits) == 0:
            return Command(cmd.engine, cmd.gate, cmd.qubits, [], list(cmd.tags)[::-1])
        return cmd

    class Plain(BasicEngine):
        def receive(self, command_list):
            for cmd in command_list:
                self.send([cmd])

    def replace(cmds, down):
        out = []
        for x in cmds:
            if x == FLUSH or down(x):
                out.append(x)
            elif x[0] == ('GS',):
                out += replace([(('P', 41),) + x[1:], (('P', 42),) + x[1:]], down)
            elif x[0][0] == 'P' and x[0][1] % 100 == 5:
                out += replace([(('P', 51),) + x[1:]], down)
            else:
                raise KeyError(x)
        return out

    def rules():
        def d_s(cmd):
            emit(cmd, 41)
            emit(cmd, 42)

        def d_p(cmd):
            emit(cmd, 51)
        return DecompositionRuleSet(rules=[DecompositionRule(k['GS'], d_s), DecompositionRule(k['P'], d_p, lambda cmd: cmd.gate.label % 100 == 5)])
    ident = gates(lambda x: x)
    return {
        'tags': (lambda: TagRemover(), drop(('ComputeTag', 'UncomputeTag'))),
        'tagsT': (lambda: TagRemover([k['T1']]), drop(('T1', 'T2'))),
        'tags2': (lambda: TagRemover([k['T2'], TAGS['ComputeTag']]), drop(('T2', 'ComputeTag'))),
        'filter': (lambda: InstructionFilter(lambda s, cmd: gate_key(cmd.gate)[0] != 'P' or cmd.gate.label % 100 != 5), ident),
        'modtag': (lambda: CommandModifier(add_tag), gates(lambda x: x[:4] + (x[4] + ('T3',),))),
        'modgate': (lambda: CommandModifier(relabel), gates(lambda x: ((('P', x[0][1] + 100),) + x[1:]) if x[0][0] == 'P' else x)),
        'modnew': (lambda: CommandModifier(renew), gates(lambda x: x if x[2] else x[:4] + (x[4][::-1],))),
        'dummy': (lambda: DummyEngine(save_commands=True), ident),
        'compare': (lambda: CompareEngine(), ident),
        'plain': (lambda: Plain(), ident),
        'replace': (lambda: AutoReplacer(rules()), replace),
    }


def available_after(chain, i):
    """What the engines after position i say about an abstract command."""
    for p in chain[i:]:
        if p == 'filter':
            return lambda x: x == FLUSH or x[0][0] != 'P' or x[0][1] % 100 != 5
        if p in ('dummy', 'compare'):
            return lambda x: True
    return lambda x: x == FLUSH or x[0] != ('GS',)


def emit(cmd, label):
    from projectq.meta import Control

    with Control(cmd.engine, cmd.control_qubits, ctrl_state=cmd.control_state):
        kinds()['P'](label) | cmd.qubits


CMDS = [
    (('P', 1), (0,), (), '', ()),
    (('GS',), (1,), (0,), '1', ('T1', 'T2', 'T3')),
    (('P', 5), (1,), (0,), '0', ('T2', 'ComputeTag', 'T1', 'UncomputeTag')),
    (('P', 2), (1, 2), (), '', ('ComputeTag', 'T1')),
    (('GS',), (2,), (), '', ('UncomputeTag', 'T3', 'T2')),
    FLUSH,
]
PASSES = ['tags', 'tagsT', 'tags2', 'filter', 'modtag', 'modgate', 'modnew', 'dummy', 'compare', 'plain', 'replace']


def expected(chain, prog, tab):
    cmds = list(prog)
    for i, p in enumerate(chain):
        cmds = tab[p][1](cmds, available_after(chain, i + 1))
    return cmds


def is_op(cmd):
    return type(cmd.gate).__name__ not in ('AllocateQubitGate', 'DeallocateQubitGate')


def run_chain(case, ctx):
    """All programs of a given length through one chain of passes; grouping: all compositions of the program into lists."""
    _, chain, depth, grouping = case
    tab = table(None)
    engines = [tab[p][0]() for p in chain]
    s = Sys(engines, available=lambda cmd: gate_key(cmd.gate) != ('GS',))
    saved = [e for e in engines if hasattr(e, 'received_commands')]
    try:
        if len(s.allocs) != 3 or any(is_op(c) for c in s.allocs):
            ctx.fail('chain: allocations', f'{chain}: allocating 3 qubits sends {[str(c) for c in s.allocs]}')
            return
        for x in CMDS[:-1]:
            got, want = bool(s.eng.is_available(s.command(x))), available_after(chain, 0)(x)
            if got != want:
                ctx.fail('chain: is_available', f'{chain}: is_available of {x} is {got}')
                return
        alphabet = range(len(CMDS))
        n = 0
        for ln in range(1, depth + 1):
            for w in itertools.product(alphabet, repeat=ln):
                prog = [CMDS[i] for i in w]
                want = expected(chain, prog, tab)
                for cut in (range(1 << (ln - 1)) if grouping else (0,)):
                    s.rec.cmds.clear()
                    for e in saved:
                        del e.received_commands[:]
                    batch = []
                    for j, x in enumerate(prog):
                        if x == FLUSH:
                            if batch:
                                s.eng.send(batch)
                                batch = []
                            s.eng.flush()
                            continue
                        batch.append(s.command(x))
                        if not (grouping and cut >> j & 1):
                            s.eng.send(batch)
                            batch = []
                    if batch:
                        s.eng.send(batch)
                    got = [FLUSH if type(c.gate).__name__ == 'FlushGate' else s.read(c) for c in s.rec.cmds]
                    n += 1
                    ctx.tr(len(got))
                    if got != want:
                        ctx.fail(f'chain {chain[0] if len(chain) == 1 else ""}: wrong', f'{chain}: {prog} (cut {cut:b}) arrives as {got}, expected {want}')
                        return
                    for e in saved:
                        i = engines.index(e)
                        mid = [x for x in expected(chain[:i], prog, tab)] if 'replace' not in chain[:i] else None
                        if mid is not None and len(e.received_commands) != len(mid):
                            ctx.fail('chain: saved commands', f'{chain}: {prog}: DummyEngine saved {len(e.received_commands)} commands instead of {len(mid)}')
                            return
                ctx.trace()
                if want != prog:
                    ctx.key((tuple(chain), w))
                ctx.state(repr(want))
        ctx.outcome('chain')
    finally:
        s.close()


# ---------------------------------------------------------------- replacement
def with_control(cmd, f):
    from projectq.meta import Control

    with Control(cmd.engine, cmd.control_qubits, ctrl_state=cmd.control_state):
        f()


def rule_impl(name):
    """(gate class, decompose function, recogniser)"""
    from projectq.meta import Compute, Uncompute
    from projectq.ops import BasicGate, DaggeredGate

    k = kinds()
    P = k['P']

    def seq(*labels):
        def f(cmd):
            for lb in labels:
                g = make_gate(lb) if isinstance(lb, tuple) else P(lb)
                with_control(cmd, lambda: g | cmd.qubits)
        return f

    def comp(cmd):
        def body():
            with Compute(cmd.engine):
                P(51) | cmd.qubits
            P(52) | cmd.qubits
            Uncompute(cmd.engine)
        with_control(cmd, body)

    def ancilla(cmd):
        def body():
            a = cmd.engine.allocate_qubit()
            P(71) | (a, cmd.qubits[0])
            P(72) | cmd.qubits
            P(-71) | (a, cmd.qubits[0])
            del a[0]
        with_control(cmd, body)

    def rot(cmd):
        with_control(cmd, lambda: P(61) | cmd.qubits)
        with_control(cmd, lambda: P(int(600 + 10 * cmd.gate.angle)) | cmd.qubits)

    def nc(n):
        return lambda cmd: len(cmd.control_qubits) == n
    if name == 'state':
        from projectq.setups.decompositions import controlstate

        r = controlstate.all_defined_decomposition_rules[0]
        return r.gate_class, r.gate_decomposer, r.gate_recognizer
    return {
        'A': (k['GA'], seq(11, 12), None),
        'A0': (k['GA'], seq(21), nc(0)),
        'Ai': (k['GAi'], seq(31, ('GS',), 32), None),
        'S': (k['GS'], seq(41, 42), None),
        'B': (k['GB'], comp, None),
        'R': (k['GR'], rot, lambda cmd: cmd.gate.angle > 0),
        'N': (k['GN'], ancilla, None),
        'any0': (BasicGate, seq(81, 82), nc(0)),
        'dag': (DaggeredGate, seq(91), None),
        'Ai1': (k['GAi'], seq(101, 102), nc(1)),
    }[name]


RULES = ['A', 'A0', 'Ai', 'S', 'B', 'R', 'N', 'any0', 'dag', 'Ai1', 'state']
CLASS_OF = {'A': 'GA', 'A0': 'GA', 'Ai': 'GAi', 'S': 'GS', 'B': 'GB', 'R': 'GR', 'N': 'GN', 'any0': 'Basic', 'dag': 'dag', 'Ai1': 'GAi', 'state': 'Basic'}
MRO = {'GA': ['GA', 'Basic'], 'GAi': ['GAi', 'Basic'], 'GB': ['GB', 'GA', 'Basic'], 'GS': ['GS', 'Self', 'Basic'], 'GR': ['GR', 'Basic'], 'GN': ['GN', 'Basic'], 'dag': ['dag', 'Basic'], 'P': ['P', 'Basic'], 'XGate': ['X', 'Self', 'Basic']}


def recognises(rule, x):
    g, t, c, s, tags = x
    if rule in ('A0', 'any0'):
        return len(c) == 0
    if rule == 'R':
        return g[1] > 0
    if rule == 'Ai1':
        return len(c) == 1
    if rule == 'state':
        return '0' in s
    return True


def apply_rule(rule, x):
    """Commands a rule gives for x, without the tags of x."""
    g, t, c, s, tags = x

    def cm(lb, tt=t, tg=()):
        return (lb if isinstance(lb, tuple) else ('P', lb), tt, c, s, tg)
    if rule == 'state':
        zs = [q for q, v in zip(c, s) if v == '0']
        return ([(('XGate', None), (q,), (), '', ('ComputeTag',)) for q in zs] + [(g, t, c, '1' * len(c), ())]
                + [(('XGate', None), (q,), (), '', ('UncomputeTag',)) for q in zs[::-1]])
    if rule == 'B':
        # controls apply to the action only
        return [(('P', 51), t, (), '', ('ComputeTag',)), cm(52), (('P', -51), t, (), '', ('UncomputeTag',))]
    if rule == 'N':
        return ['alloc', cm(71, ('anc',) + t), cm(72), cm(-71, ('anc',) + t), 'dealloc']
    if rule == 'R':
        return [cm(61), cm(int(600 + 10 * g[1]))]
    return [cm(lb) for lb in {'A': (11, 12), 'A0': (21,), 'Ai': (31, ('GS',), 32), 'S': (41, 42), 'any0': (81, 82), 'dag': (91,), 'Ai1': (101, 102)}[rule]]


def invert(x):
    if isinstance(x, str):
        return {'alloc': 'dealloc', 'dealloc': 'alloc'}[x]
    return (inverse_key(x[0]),) + x[1:]


def candidates(rules, x):
    """[(rule, inverted)] the chooser may pick from."""
    if 'state' in rules and '0' in x[3]:
        return 'state'
    own, inv = MRO[x[0][0]], [m for m in MRO[inverse_key(x[0])[0]] if m != 'Basic']
    ix = invert(x)
    for level in range(max(len(own), len(inv))):
        if level < len(own):
            r = [(n, False) for n in rules if CLASS_OF[n] == own[level] and recognises(n, x)]
            if r:
                return r
        if level < len(inv):
            r = [(n, True) for n in rules if CLASS_OF[n] == inv[level] and recognises(n, ix)]
            if r:
                return r
    return []


class NoRule(Exception):
    pass


def compile_ref(rules, avail, chooser, x, depth=0):
    if isinstance(x, str) or avail(x):
        return [x]
    if depth > 8:
        raise RecursionError
    c = candidates(rules, x)
    if not c:
        raise NoRule(x)
    if c == 'state':
        body, inverted = apply_rule('state', x), False
    else:
        name, inverted = CHOOSE[chooser](c)
        body = apply_rule(name, invert(x) if inverted else x)
        if inverted:
            body = [invert(b) for b in body[::-1]]
    out = []
    for b in body:
        out += compile_ref(rules, avail, chooser, b if isinstance(b, str) else b[:4] + (x[4] + b[4],), depth + 1)
    return out


CHOOSE = {'first': lambda c: c[0], 'last': lambda c: c[-1], 'middle': lambda c: c[len(c) // 2]}
AVAIL = {
    'markers': lambda x: x[0][0] in ('P', 'XGate'),
    'A': lambda x: x[0][0] in ('P', 'XGate', 'GA'),
    'S': lambda x: x[0][0] in ('P', 'XGate', 'GS', 'GAi'),
    'plain': lambda x: x[0][0] in ('P', 'XGate') or len(x[2]) == 0 and x[0][0] != 'GN',
    'ones': lambda x: x[0][0] in ('P', 'XGate') and '0' not in x[3],
}
GATES = [('GA',), ('GAi',), ('GB',), ('GS',), ('GR', 0.5), ('GR', -0.5), ('GN',), ('dag', 'GN')]
CTRL = [((), ''), ((1,), '1'), ((1,), '0'), ((1, 2), '10')]
REPL = [(g, (0,), c, s, t) for g in GATES for c, s in CTRL for t in ((), ('T1', 'T3'))]


def dedupe(tags):
    out = []
    for t in tags:
        if t not in out:
            out.append(t)
    return tuple(sorted(out))


def norm(ab):
    return ab if isinstance(ab, str) else ab[:4] + (dedupe('Compute' if t in ('ComputeTag', 'UncomputeTag') else t for t in ab[4]),)


def run_replace(case, ctx):
    _, rules, av, chooser, order = case
    from projectq.cengines import AutoReplacer, DecompositionRule, DecompositionRuleSet
    from projectq.cengines._replacer import NoGateDecompositionError


    rs = []
    for r in rules:
        c, d, k = rule_impl(r)
        rs.append(DecompositionRule(c, d) if k is None else DecompositionRule(c, d, k))
    rset = DecompositionRuleSet(rules=rs)
    sizes = []

    def choose(cmd, lst):
        sizes.append(len(lst))
        return CHOOSE[chooser](lst)

    s = None

    def avail(cmd):
        if not is_op(cmd) or s is None:
            return True
        return AVAIL[av](s.read(cmd))
    repl = AutoReplacer(rset, choose) if chooser != 'first' else AutoReplacer(rset)
    s = Sys([repl], avail)
    before = {k: list(v) for k, v in rset.decompositions.items()}
    todo = [*REPL, *REPL[::-1]] if order == 'updown' else REPL
    try:
        for x in todo:
            s.rec.cmds.clear()
            del sizes[:]
            try:
                want = compile_ref(rules, AVAIL[av], chooser, x)
            except NoRule:
                want = None
            except RecursionError:
                continue
            ctx.tr(1 if want is None else len(want))
            ctx.trace()
            try:
                s.eng.send([s.command(x)])
                got = True
            except NoGateDecompositionError:
                got = None
            if (got is None) != (want is None):
                ctx.fail('replace: refusal', f'rules {rules}, available {av}, chooser {chooser}: {x} is {"refused" if got is None else "compiled"}, expected {want and [str(w) for w in want]}')
                return
            ctx.key((tuple(rules), av, chooser, x))
            if got is None:
                ctx.outcome('no rule')
                # an exception inside of a rule leaves meta engines behind; start afresh
                s.close()
                s = Sys([AutoReplacer(rset, choose) if chooser != 'first' else AutoReplacer(rset)], avail)
                continue
            seq, anc = [], {}
            for c in s.rec.cmds:
                nm = type(c.gate).__name__
                ab = s.read(c)
                if nm == 'AllocateQubitGate':
                    if ab[1][0] in anc or not isinstance(ab[1][0], tuple):
                        ctx.fail('replace: ancilla', f'{rules} {x}: allocates an existing qubit {ab[1]}')
                        return
                    anc[ab[1][0]] = 'anc'
                    seq.append('alloc')
                elif nm == 'DeallocateQubitGate':
                    if anc.pop(ab[1][0], None) is None:
                        ctx.fail('replace: ancilla', f'{rules} {x}: releases {ab[1]}, which is not its own')
                        return
                    seq.append('dealloc')
                else:
                    seq.append((ab[0], tuple(anc.get(q, q) for q in ab[1]), tuple(anc.get(q, q) for q in ab[2]), ab[3], ab[4]))
                if c.engine is not s.eng and nm not in ('AllocateQubitGate', 'DeallocateQubitGate'):
                    ctx.fail('replace: engine', f'{rules}: a command that replaces {x} belongs to {c.engine}')
                    return
            if [norm(a) for a in seq] != [norm(w) for w in want]:
                ctx.fail('replace: wrong', f'rules {rules}, available {av}, chooser {chooser}: {x} becomes {seq}, expected {want}')
                return
            # multiplicity and order of the tags that the command had
            for a in seq:
                if not isinstance(a, str) and 'state' not in rules and [t for t in a[4] if t in ('T1', 'T3')] != [t for t in want[0][4] if t in ('T1', 'T3')] if want and not isinstance(want[0], str) else False:
                    ctx.fail('replace: tags', f'rules {rules}: {x} becomes {seq}')
                    return
            now = rset.decompositions
            if set(now) != set(before) or any(now[k] != before[k] for k in now):
                ctx.fail('replace: rule set changed', f'rules {rules}, available {av}: replacing {x} changes the rule set: { {k: len(v) for k, v in now.items()} }')
                return
            c = candidates(rules, x)
            if chooser != 'first' and not AVAIL[av](x) and c != 'state' and (not sizes or sizes[0] != len(c)):
                ctx.fail('replace: choices', f'rules {rules}, available {av}: the chooser gets {sizes} decompositions for {x}, expected {c}')
                return
            ctx.state(repr(want))
            ctx.outcome('available' if want == [x] else 'replaced')
    finally:
        s.close()


# ---------------------------------------------------------------- comparison of circuits
def cmp_alphabet():
    """name -> function(sys) applying one command; canonical per-command description"""
    from projectq.meta import Control
    from projectq.ops import All, C, CNOT, H, Measure, Ph, QubitOperator, R, Rx, Ry, Rz, S, Sdag, Swap, T, TimeEvolution, X, Z
    from projectq.libs.math import AddConstant

    def tagged(s):
        c = s.command((('XGate', None), (0,), (), '', ('T1',)))
        s.eng.send([c])

    def tagged2(s):
        c = s.command((('XGate', None), (0,), (), '', ('T1', 'T3')))
        s.eng.send([c])

    def ctl0(s):
        with Control(s.eng, [s.q[0]], ctrl_state='0'):
            X | s.q[1]
    return {
        'x0': lambda s: X | s.q[0], 'x1': lambda s: X | s.q[1], 'h0': lambda s: H | s.q[0], 'z0': lambda s: Z | s.q[0],
        'rx': lambda s: Rx(0.5) | s.q[0], 'rx2': lambda s: Rx(0.6) | s.q[0], 'ry': lambda s: Ry(0.5) | s.q[0], 'cx01': lambda s: CNOT | (s.q[0], s.q[1]), 'cx10': lambda s: CNOT | (s.q[1], s.q[0]),
        'cx0': ctl0, 'swap': lambda s: Swap | (s.q[0], s.q[1]), 'swap_r': lambda s: Swap | (s.q[1], s.q[0]), 's0': lambda s: S | s.q[0], 'sdag': lambda s: Sdag | s.q[0],
        'tagged': tagged, 'tagged2': tagged2, 'm0': lambda s: Measure | s.q[0], 'm2': lambda s: Measure | s.q[2], 'ph': lambda s: Ph(0.5) | s.q[0], 'r': lambda s: R(0.5) | s.q[0],
        'add': lambda s: AddConstant(1) | s.reg(0, 1), 'add_r': lambda s: AddConstant(1) | s.reg(1, 0), 'te': lambda s: TimeEvolution(0.5, QubitOperator('X0 Y1')) | s.reg(0, 1), 'x2': lambda s: X | s.q[2],
    }


# what each is, per qubit that it touches (0, 1, 2)
SAME = {'swap_r': 'swap'}
QUBITS = {'x1': (1,), 'cx01': (0, 1), 'cx10': (0, 1), 'cx0': (0, 1), 'swap': (0, 1), 'swap_r': (0, 1), 'm2': (2,), 'add': (0, 1), 'add_r': (0, 1), 'te': (0, 1), 'x2': (2,)}
NAMES = ['x0', 'x1', 'h0', 'z0', 'rx', 'rx2', 'ry', 'cx01', 'cx10', 'cx0', 'swap', 'swap_r', 's0', 'sdag', 'tagged', 'tagged2', 'm0', 'm2', 'ph', 'r', 'add', 'add_r', 'te', 'x2']
SMALL = ['x0', 'x1', 'x2', 'h0', 'cx01', 'cx10', 'cx0', 'swap', 'swap_r']


def canon(w):
    return tuple(tuple(SAME.get(n, n) for n in w if q in QUBITS.get(n, (0,))) for q in range(3))


def circuit(w, mid):
    """A CompareEngine that has seen the circuit w, as backend or (mid) before a backend."""
    from projectq import MainEngine
    from projectq.cengines import CompareEngine, DummyEngine
    from projectq.types import Qureg

    ce = CompareEngine()
    eng = MainEngine(DummyEngine() if mid else ce, [ce] if mid else [])
    s = Sys.__new__(Sys)
    s.eng, s.q = eng, [eng.allocate_qubit()[0] for _ in range(3)]
    s.reg = lambda *a: Qureg([s.q[i] for i in a])
    A = cmp_alphabet()
    for n in w:
        A[n](s)
    if mid:
        eng.flush()
    sims.sink(eng)
    for x in s.q:
        x.id = -1
    return ce


def words(alphabet, depth):
    return [w for ln in range(depth + 1) for w in itertools.product(alphabet, repeat=ln)]


def run_compare(case, ctx):
    """One slice of circuits against all circuits of the family."""
    _, fam, lo, hi = case
    W = words(NAMES, 2) if fam == 'wide' else words(SMALL, 3)
    ces = [circuit(w, False) for w in W]
    for i in range(lo, min(hi, len(W))):
        mine = circuit(W[i], i % 2 == 1)
        if mine == 'x' or mine == mine._l or mine == None:  # noqa
            ctx.fail('compare: other types', f'a CompareEngine with {W[i]} equals something else')
        for j, other in enumerate(ces):
            want = canon(W[i]) == canon(W[j])
            ctx.tr()
            if bool(mine == other) != want or (j % 7 == i % 7 and bool(other == mine) != want):
                ctx.fail('compare: equality', f'{W[i]} and {W[j]}: equal is {mine == other} / {other == mine}, should be {want}')
                return
            if want != (i == j):
                ctx.outcome('equal, written differently')
            if not want:
                ctx.key((W[i], W[j]))
        ctx.trace(len(ces))
        ctx.state(repr(canon(W[i])))
        # comparing does not change it
        if not mine == ces[i] or not ces[i] == mine:
            ctx.fail('compare: repeated', f'{W[i]}: no longer equal after comparisons')
            return


def run_sizes(case, ctx):
    """Circuits on different numbers of qubits, and with releases."""
    from projectq import MainEngine
    from projectq.cengines import CompareEngine
    from projectq.ops import X

    made = {}
    for n in range(1, 4):
        for gates in range(0, 3):
            for rel in range(0, 2):
                for _ in range(2):
                    ce = CompareEngine()
                    eng = MainEngine(ce, [])
                    q = [eng.allocate_qubit()[0] for _ in range(n)]
                    for g in range(gates):
                        X | q[g % n]
                    if rel:
                        q[0].__del__()
                    sims.sink(eng)
                    for x in q:
                        x.id = -1
                    made.setdefault((n, gates, rel), []).append(ce)
    for a, b in itertools.product(made, repeat=2):
        ctx.trace()
        ctx.key((a, b))
        if (made[a][0] == made[b][1]) != (a == b):
            ctx.fail('compare: sizes', f'(qubits, gates, released) {a} and {b}: equal is {made[a][0] == made[b][1]}')


# ---------------------------------------------------------------- forwarding engine
def run_forward(case, ctx):
    """A forwarder in front of a chain: modifies each command once, keeps order, and can serve as engine of qubits."""
    _, chain, mod, w = case
    from projectq.cengines import ForwarderEngine

    tab = table(None)
    s = Sys([tab[p][0]() for p in chain], available=lambda cmd: gate_key(cmd.gate) != ('GS',))
    try:
        calls = []

        def fn(cmd):
            calls.append(1)
            cmd.tags = cmd.tags + [kinds()['T3']()]
            return cmd
        f = ForwarderEngine(s.eng.next_engine, fn) if mod else ForwarderEngine(s.eng.next_engine)
        prog = [CMDS[i] for i in w]
        f.receive([s.command(x) for x in prog])
        mid = [x[:4] + (x[4] + ('T3',),) for x in prog] if mod else prog
        want = expected(chain, mid, tab)
        got = [s.read(c) for c in s.rec.cmds]
        if got != want or (mod and len(calls) != len(prog)):
            ctx.fail('forward', f'forwarder{" with function" if mod else ""} before {chain}: {prog} arrives as {got}, expected {want} ({len(calls)} calls)')
        for x in CMDS[:-1]:
            if bool(f.is_available(s.command(x))) != available_after(chain, 0)(x):
                ctx.fail('forward: is_available', f'forwarder before {chain}: is_available({x}) is wrong')
        if f.main_engine is not s.eng or f.next_engine is not s.eng.next_engine:
            ctx.fail('forward: engines', f'forwarder before {chain} has wrong engines')
        # allocate, use and release through it
        s.rec.cmds.clear()
        q = f.allocate_qureg(2)
        ids = [x.id for x in q]
        kinds()['P'](3) | q[1]
        q[0].__del__()
        got = [(type(c.gate).__name__[:7], [x.id for r in c.qubits for x in r]) for c in s.rec.cmds]
        if len(set(ids) | set(s.pos)) != 5 or got != [('Allocat', [ids[0]]), ('Allocat', [ids[1]]), ('P24', [ids[1]]), ('Dealloc', [ids[0]])]:
            ctx.fail('forward: qubits', f'forwarder before {chain}: allocate 2, gate on the second, release the first arrives as {got}')
        for x in q:
            x.id = -1
        ctx.trace()
        ctx.key(case)
        ctx.tr(len(s.rec.cmds))
        ctx.outcome('forward')
    finally:
        s.close()


def run_bad(case, ctx):
    """Arguments that must be refused; end of the chain."""
    from projectq.cengines import BasicEngine, DecompositionRule, LastEngineException, TagRemover
    from projectq.cengines._replacer import ThisIsNotAGateClassError

    k = kinds()
    for bad in ('x', k['T1'], (k['T1'],), {k['T1']}, {'a': 1}, 7):
        try:
            TagRemover(bad)
        except TypeError:
            pass
        else:
            ctx.fail('bad: tag list', f'TagRemover({bad!r}) is accepted')
        ctx.key(repr(bad))
    for bad in (k['GA'](), k['P'](1), type.__class__):
        try:
            DecompositionRule(bad, lambda cmd: None)
        except ThisIsNotAGateClassError:
            pass
        else:
            ctx.fail('bad: gate class', f'DecompositionRule({bad!r}, ...) is accepted')
        ctx.key(repr(bad))

    class E(BasicEngine):
        def receive(self, command_list):
            pass
    e = E()
    e.is_last_engine = True
    try:
        e.is_available(None)
    except LastEngineException:
        pass
    else:
        ctx.fail('bad: last engine', 'is_available of a last engine that does not define it gives an answer')
    ctx.trace()


def cases(tier):
    T = tier == 'thorough'
    out = [['bad'], ['sizes']]
    for n in range(0, 4):
        for chain in itertools.product(PASSES, repeat=n):
            out.append(['chain', list(chain), (5 if T else 4) if n < 2 else (4 if T else 3) if n == 2 else 3 if T else 2, False])
            if n < 3 or T:
                out.append(['chain', list(chain), 4 if n < 2 else 3, True])
    for n in range(0, 3):
        for chain in itertools.product(PASSES, repeat=n):
            for mod in (0, 1):
                for w in itertools.product(range(5), repeat=2):
                    out.append(['forward', list(chain), mod, list(w)])
    for n in range(0, 4):
        for rules in itertools.permutations(RULES, n):
            for av in AVAIL:
                for ch in CHOOSE if n and (n < 3 or T) else ('first', 'last')[:1 if av in ('A', 'S') else 2]:
                    out.append(['replace', list(rules), av, ch, 'updown' if n < 3 or T else 'up'])
    nw = len(words(NAMES, 2))
    for lo in range(0, nw, 40):
        out.append(['compare', 'wide', lo, lo + 40])
    nw = len(words(SMALL, 3))
    for lo in range(0, nw, 40):
        out.append(['compare', 'deep', lo, lo + 40])
    return out


def run(case, ctx):
    globals()['run_' + case[0]](case, ctx)
