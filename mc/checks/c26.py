"""C26: the main engine runs exactly the compilers it was given, in that order, and hands their errors to the user."""
import gc
import itertools

from mc import pq, sims

ID = 'C26'
RULE = ('(list) every engine list up to a length over passes, mappers, repeated instances and things that are no engines x containers x backends; (ask) every chain of engines that answer or pass on '
        'is_available / is_meta_tag_supported; (err) every position that raises x exception type x kind of command x verbose; (many) engine numbers around the limit, with blocks. '
        'Non-trivial: a list of at least two engines')
ASSUMPTIONS = []
CHUNK = 8

KINDS = ['pass', 'pass2', 'fwd', 'opt', 'tag', 'map', 'same', 'backend', 'class', 'none', 'str', 'main', 'lin']
CONTAINERS = ['list', 'tuple', 'gen', 'single', 'dict']
BACKENDS = ['rec', 'sim', 'default', 'class', 'obj', 'str']


def cases(tier):
    T = tier != 'quick'
    out = []
    for b in BACKENDS:
        for k in range(6 if T else 5):
            if k < 2:
                out.append(['list', b, [], k])
            else:
                for pre in itertools.product(KINDS, repeat=1 if k < 4 else 2):
                    out.append(['list', b, list(pre), k])
    for c in CONTAINERS:
        out.append(['cont', c])
    for pre in itertools.product(range(4), repeat=2):
        out.append(['ask', list(pre), 2 if not T else 3])
    for n in range(1, 4):
        out.append(['err', n])
    out += [['many', n] for n in range(95, 104)]
    out += [['ids'], ['defaults'], ['late']]
    return out


def run(case, ctx):
    {'list': run_list, 'cont': run_cont, 'ask': run_ask, 'err': run_err, 'many': run_many, 'ids': run_ids, 'defaults': run_defaults, 'late': run_late}[case[0]](case, ctx)


_P = None


def Pass():
    """A pass that logs what it sees and adds its own tag, so that the order of the passes is visible in every command."""
    global _P
    if _P is None:
        from projectq.cengines import BasicEngine

        class _Pass(BasicEngine):
            def receive(self, command_list):
                for c in command_list:
                    c.tags = list(c.tags) + [self.mark]
                self.send(command_list)

        _P = _Pass
    p = _P()
    p.mark = Mark()
    return p


class Mark:
    N = 0

    def __init__(self):
        Mark.N += 1
        self.n = Mark.N

    def __eq__(self, other):
        return isinstance(other, Mark) and other.n == self.n

    def __deepcopy__(self, memo):
        return self


def name(cmd):
    from projectq.ops import FlushGate

    return 'Flush' if isinstance(cmd.gate, FlushGate) else str(cmd.gate)


def build(kind, made, backend):
    from projectq.cengines import ForwarderEngine, LinearMapper, LocalOptimizer, ManualMapper, TagRemover
    from projectq import MainEngine

    if kind in ('pass', 'pass2'):
        return Pass()
    if kind == 'fwd':
        from projectq.cengines import CommandModifier

        mark = Mark()

        def mod(cmd):
            cmd.tags = list(cmd.tags) + [mark]
            return cmd
        e = CommandModifier(mod)
        e.mark = mark
        return e
    if kind == 'opt':
        return LocalOptimizer(1)
    if kind == 'tag':
        return TagRemover()
    if kind == 'map':
        return ManualMapper(lambda i: i)
    if kind == 'lin':
        return LinearMapper(4)
    if kind == 'same':
        return made[0] if made else Pass()
    if kind == 'backend':
        return backend
    return {'class': TagRemover, 'none': None, 'str': 'LocalOptimizer', 'main': pq.Recorder}[kind]


def make_backend(b):
    from projectq.backends import Simulator

    return {'rec': lambda: pq.Recorder(), 'sim': lambda: sims.make('cpp'), 'default': lambda: None, 'class': lambda: Simulator, 'obj': object, 'str': lambda: 'Simulator'}[b]()


def run_list(case, ctx):
    _, b, prefix, k = case
    for tail in itertools.product(KINDS, repeat=max(0, k - len(prefix))):
        one(b, list(prefix) + list(tail), ctx)


def one(b, kinds, ctx):
    from projectq import MainEngine
    from projectq.backends import Simulator
    from projectq.cengines import BasicEngine, UnsupportedEngineError
    from projectq.cengines._basicmapper import BasicMapperEngine
    from projectq.ops import X

    be = make_backend(b)
    engines = []
    for kd in kinds:
        engines.append(build(kd, engines, be))
    given = list(engines)
    ctx.tr()
    ctx.trace()
    allbe = [be] if isinstance(be, BasicEngine) else []
    good = (be is None or isinstance(be, BasicEngine)) and all(isinstance(e, BasicEngine) for e in engines)
    good = good and len({id(e) for e in engines + allbe}) == len(engines + allbe) and sum(isinstance(e, BasicMapperEngine) for e in engines) <= 1
    if b == 'default' and 'backend' in kinds:
        good = False  # None is no engine
    what = f'backend {b}, engines {kinds}'
    eng = None
    try:
        with sims.Quiet():
            eng = MainEngine(be, engines)
    except UnsupportedEngineError:
        if good:
            ctx.fail('a correct engine list was refused', what)
        else:
            ctx.outcome('refused')
        return
    except Exception as e:  # noqa
        ctx.fail(f'{type(e).__name__} when building the engine', f'{what}: {e}')
        return
    if not good:
        ctx.fail('a wrong engine list was accepted', what)
        sims.sink(eng)
        return
    ctx.outcome(f'accepted {len(kinds)}')
    ctx.state(tuple(kinds))
    if len(kinds) > 1:
        ctx.key((b, tuple(kinds)))
    bad = []
    if engines != given:
        bad.append('the list of the user was changed')
    if be is not None and eng.backend is not be or be is None and not isinstance(eng.backend, Simulator):
        bad.append(f'backend is {eng.backend}')
    maps = [e for e in given if isinstance(e, BasicMapperEngine)]
    if eng.mapper is not (maps[0] if maps else None):
        bad.append(f'mapper is {eng.mapper}')
    e, n = eng, 0
    chain = given + [eng.backend]
    for want in chain:
        e = e.next_engine
        if e is not want:
            bad.append(f'engine {n} is {e}')
            break
        if e.main_engine is not eng:
            bad.append(f'the main engine of engine {n} is {e.main_engine}')
        if e.is_last_engine != (want is eng.backend):
            bad.append(f'is_last_engine of engine {n} is {e.is_last_engine}')
        n += 1
    # behaviour: the passes see every command once, in the order of the list
    real, got = eng.backend.receive, []

    def receive(cl):
        got.extend((name(c), [t for t in c.tags if isinstance(t, Mark)]) for c in cl)
        real(cl)
    eng.backend.receive = receive
    try:
        with sims.Quiet():
            q = eng.allocate_qubit()
            X | q
            eng.flush()
            del q
            eng.flush()
        order = [x.mark for x in given if hasattr(x, 'mark')]
        want = ['Allocate', 'X', 'Deallocate']
        if [g for g, _ in got if g != 'Flush'] != want and not (any(x == 'opt' for x in kinds) and not [g for g, _ in got if g != 'Flush' and g not in want]):
            bad.append(f'the backend received {[g for g, _ in got]}')
        for g, t in got:
            # optimizer and mappers make new commands in between, which keep or lose no tags of earlier passes except the flush
            if g == 'X' and t != order:
                bad.append(f'{g} went through {[order.index(x) for x in t]}')
                break
        if len(eng.active_qubits):
            bad.append('a dead qubit is active')
    except Exception as e:  # noqa
        bad.append(f'{type(e).__name__}: {e}')
    finally:
        eng.backend.__dict__.pop('receive', None)
        sims.sink(eng)
    for x in bad[:2]:
        ctx.fail(x.split(' is ')[0][:60], f'{what}: {x}')


def run_cont(case, ctx):
    from projectq import MainEngine
    from projectq.cengines import UnsupportedEngineError

    kind = case[1]
    for k in (0, 1, 2):
        for b in (lambda: pq.Recorder(), lambda: None):
            es = [Pass() for _ in range(k)]
            arg = {'list': lambda: es, 'tuple': lambda: tuple(es), 'gen': lambda: (e for e in es), 'single': Pass, 'dict': lambda: dict(enumerate(es))}[kind]()
            ctx.tr()
            ctx.trace()
            try:
                with sims.Quiet():
                    eng = MainEngine(b(), arg)
                if kind != 'list':
                    ctx.fail(f'{kind} accepted as engine list', f'{k}')
                sims.sink(eng)
            except UnsupportedEngineError:
                if kind == 'list':
                    ctx.fail('a list was refused', f'{k}')
                ctx.outcome(f'refused {kind}')


# ---------------------------------------------------------------- questions
def run_ask(case, ctx):
    """engines: 0 passes on, 1 answers yes, 2 answers no for the availability; and bit of which tags they handle"""
    from projectq import MainEngine
    from projectq.cengines import BasicEngine, LastEngineException
    from projectq.ops import Command, H
    from projectq.meta import ComputeTag, DirtyQubitTag, LoopTag
    from projectq.types import WeakQubitRef

    class Av(BasicEngine):
        def __init__(self, av, tags):
            super().__init__()
            self.av, self.tags, self.asked = av, tags, 0
            if av in (1, 2):
                self.is_available = self.answer
            if tags is not None:
                self.is_meta_tag_handler = lambda t: t in tags

        def answer(self, cmd):
            self.asked += 1
            return self.av == 1

        def receive(self, cl):
            if not self.is_last_engine:
                self.send(cl)
    _, pre, more = case
    tagsets = [None, (), (DirtyQubitTag, ), (LoopTag, ComputeTag)]
    for tail in itertools.product(range(4), repeat=more):
        spec = list(pre) + list(tail)
        # availability kind and tag set from the same digit would correlate: rotate
        for rot in range(4):
            es = [Av(s % 3, tagsets[(s + rot + i) % 4]) for i, s in enumerate(spec)]
            eng = MainEngine(es[-1], es[:-1])
            q = WeakQubitRef(eng, 3)
            cmd = Command(eng, H, ([q], ))
            ctx.tr()
            ctx.trace()
            chain = [eng] + es
            for i, e in enumerate(chain):
                rest = [x.av for x in es[max(0, i - 1):]] if i else [x.av for x in es]
                ans = next((x == 1 for x in rest if x), None)
                try:
                    got = e.is_available(cmd)
                except LastEngineException:
                    got = None
                if got is not ans:
                    ctx.fail('is_available', f'engines {[x.av for x in es]}: engine {i} answers {got}, expected {ans}')
                for t in (DirtyQubitTag, LoopTag, ComputeTag):
                    want = any(x.tags and t in x.tags for x in (es[i - 1:] if i else es))
                    if bool(e.is_meta_tag_supported(t)) != want:
                        ctx.fail('is_meta_tag_supported', f'engines {[x.tags for x in es]}: engine {i} answers {not want} for {t.__name__}')
            ctx.key((tuple(spec), rot))
            sims.sink(eng)


# ---------------------------------------------------------------- errors
class Plain(Exception):
    pass


class TwoArgs(Exception):
    def __init__(self, a, b):
        super().__init__(f'{a} and {b}')
        self.a, self.b = a, b


class NoArgs(Exception):
    def __init__(self):
        super().__init__('no argument')


class KwOnly(ValueError):
    def __init__(self, *, code):
        super().__init__(f'code {code}')
        self.code = code


ERRORS = [lambda: Plain('the message'), lambda: ValueError('the message'), lambda: KeyError('the message'), lambda: RuntimeError('a', 'the message'), lambda: TwoArgs('this', 'the message'),
          NoArgs, lambda: KwOnly(code=17), lambda: Plain(), lambda: NotImplementedError('the message'), lambda: OSError(2, 'the message'), lambda: KeyboardInterrupt(),
          lambda: UnicodeDecodeError('utf-8', b'x', 0, 1, 'the message')]
TRIGGERS = ['H', 'Measure', 'Flush', 'Allocate', 'Deallocate', 'batch']


def run_err(case, ctx):
    from projectq import MainEngine
    from projectq.cengines import BasicEngine
    from projectq.ops import H, Measure, X

    class Raises(BasicEngine):
        def __init__(self, err, when):
            super().__init__()
            self.err, self.when, self.on, self.seen = err, when, True, []

        def is_available(self, cmd):
            return True

        def receive(self, cl):
            for c in cl:
                if self.on and name(c) == self.when:
                    self.on = False
                    raise self.err
                self.seen.append(name(c))
            if not self.is_last_engine:
                self.send(cl)
    n = case[1]
    for pos in range(n):
        for mk in ERRORS:
            for when in ('H', 'Measure', 'Flush', 'Allocate', 'Deallocate'):
                for verbose in (False, True):
                    err = mk()
                    bad = Raises(err, when)
                    es = [Pass() for _ in range(n)]
                    es[pos] = bad
                    if pos != n - 1:
                        es[-1] = pq.Recorder(measure=1)
                    else:
                        bad.is_last_engine = True
                    eng = MainEngine(es[-1], es[:-1], verbose=verbose)
                    what = f'{type(err).__name__} upon {when} in engine {pos} of {n}, verbose {verbose}'
                    ctx.tr()
                    ctx.trace()
                    caught, q = [], None
                    steps = [lambda: H | q, lambda: Measure | q, eng.flush]
                    bad.on = when == 'Allocate'
                    try:
                        q = eng.allocate_qubit()
                    except BaseException as e:  # noqa
                        caught.append(e)
                        bad.on = False
                        q = eng.allocate_qubit()
                    bad.on = when not in ('Allocate', 'Deallocate')
                    for st in steps:
                        try:
                            st()
                        except BaseException as e:  # noqa
                            caught.append(e)
                    bad.on = when == 'Deallocate'
                    if when == 'Deallocate':
                        try:
                            eng.deallocate_qubit(q[0])
                        except BaseException as e:  # noqa
                            caught.append(e)
                    bad.on = False
                    if len(caught) != 1:
                        ctx.fail(f'{len(caught)} errors for one', f'{what}: {caught}')
                    else:
                        e = caught[0]
                        if type(e) is not type(err):
                            ctx.fail('the error changed its type', f'{what}: {type(e).__name__} {e}')
                        elif isinstance(err, Exception) and (err.args and str(err.args[-1]) not in str(e) if not isinstance(err, (OSError, UnicodeDecodeError)) else 'the message' not in str(e)):
                            ctx.fail('the error lost its message', f'{what}: {e}')
                        ctx.outcome(type(e).__name__)
                        ctx.key((n, pos, type(err).__name__, when, verbose))
                    # the engine keeps working
                    try:
                        for r in es:
                            if hasattr(r, 'cmds'):
                                r.cmds.clear()
                        bad.seen.clear()
                        p = eng.allocate_qubit()
                        X | p
                        eng.flush()
                        seen = [name(c) for c in es[-1].cmds] if pos != n - 1 else bad.seen
                        if seen != ['Allocate', 'X', 'Flush']:
                            ctx.fail('the engine does not work after an error', f'{what}: {seen}')
                    except Exception as e:  # noqa
                        ctx.fail('the engine does not work after an error', f'{what}: {type(e).__name__} {e}')
                    sims.sink(eng)
                    for x in list(eng.active_qubits):
                        x.id = -1
                    for e in caught:
                        e.__traceback__ = None
                    ctx.state((pos, n, when))
    gc.collect()


# ---------------------------------------------------------------- limits
def run_many(case, ctx):
    from projectq import MainEngine
    from projectq.meta import Control
    from projectq.ops import X

    n = case[1]  # engines including the backend
    rec = pq.Recorder()
    es = [Pass() for _ in range(n - 1)]
    ctx.tr()
    ctx.trace()
    try:
        eng = MainEngine(rec, es)
    except ValueError:
        if n <= 100:
            ctx.fail('refused below the limit', f'{n} engines')
        ctx.outcome('too many')
        ctx.key(n)
        return
    if n > 100:
        ctx.fail('accepted above the limit', f'{n} engines')
        return
    q = [eng.allocate_qubit()[0] for _ in range(8)]
    # nested blocks insert engines: up to 100 in total
    for depth in range(1, 8):
        rec.cmds.clear()
        ctls = []
        nexts = []
        try:
            for k in range(depth):
                c = Control(eng, q[k])
                c.__enter__()
                ctls.append(c)
            X | q[7]
            ok = True
        except RuntimeError:
            ok = False
        for c in reversed(ctls):
            c.__exit__(None, None, None)
        if ok != (n + depth <= 100):
            ctx.fail('limit of engines with blocks', f'{n} engines, {depth} blocks: {"accepted" if ok else "refused"}')
        elif ok and (len(rec.cmds) != 1 or len(rec.cmds[0].control_qubits) != depth or rec.cmds[0].tags != [x.mark for x in es]):
            ctx.fail('long chains', f'{n} engines, {depth} blocks: {pq.show(rec.cmds)[:200]}')
        if eng.next_engine is not (es + [rec])[0]:
            ctx.fail('the chain is not restored', f'{n} engines, {depth} blocks')
            break
        if not ok:
            break
    ctx.key(n)
    ctx.state(n)
    sims.sink(eng)
    for x in q:
        x.id = -1


def run_ids(case, ctx):
    """Two engines do not share ids, measurements or qubits."""
    from projectq import MainEngine
    from projectq.cengines import NotYetMeasuredError
    from projectq.ops import Measure, X

    for order in itertools.product((0, 1), repeat=6):
        recs = [pq.Recorder(measure=1), pq.Recorder(measure=0)]
        engs = [MainEngine(r, []) for r in recs]
        qs = [[], []]
        for o in order:
            qs[o].append(engs[o].allocate_qubit()[0])
        for o in (0, 1):
            ctx.tr()
            ctx.trace()
            if [x.id for x in qs[o]] != list(range(len(qs[o]))):
                ctx.fail('ids', f'{order}: {[x.id for x in qs[o]]}')
            if set(engs[o].active_qubits) != set(qs[o]):
                ctx.fail('active qubits', f'{order}')
        for o in (0, 1):
            if qs[o]:
                Measure | qs[o][0]
                engs[o].flush()
        for o in (0, 1):
            for i, x in enumerate(qs[o]):
                try:
                    v = int(x)
                except NotYetMeasuredError:
                    v = None
                if v != ((1 - o) if i == 0 else None):
                    ctx.fail('results of another engine', f'{order}: qubit {i} of engine {o} reads {v}')
        ctx.key(order)
        for e in engs:
            sims.sink(e)
        for x in qs[0] + qs[1]:
            x.id = -1


def run_defaults(case, ctx):
    """Without arguments: the simulator behind the default compilers; running a program end to end."""
    from projectq import MainEngine
    from projectq.backends import Simulator
    from projectq.libs.math import AddConstant
    from projectq.meta import Compute, Control, Dagger, Loop, Uncompute
    from projectq.ops import QFT, All, H, Measure, X

    for args in (dict(), dict(backend=None), dict(engine_list=None), dict(backend=sims.make('cpp')), dict(verbose=True)):
        with sims.Quiet():
            eng = MainEngine(**args)
        ctx.tr()
        ctx.trace()
        if not isinstance(eng.backend, Simulator) or args.get('backend') is not None and eng.backend is not args['backend']:
            ctx.fail('default backend', f'{args}: {eng.backend}')
        if eng.verbose is not args.get('verbose', False) or eng.mapper is not None:
            ctx.fail('defaults', f'{args}')
        q = eng.allocate_qureg(3)
        AddConstant(3) | q
        QFT | q
        with Dagger(eng):
            QFT | q
        with Loop(eng, 3):
            X | q[2]
        with Compute(eng):
            H | q[0]
        with Control(eng, q[1]):
            X | q[2]
        Uncompute(eng)
        All(Measure) | q
        eng.flush()
        if [int(x) for x in q] != [1, 1, 0]:
            ctx.fail('default compilers', f'{args}: {[int(x) for x in q]}')
        ctx.key(str(args))
        del q
        sims.sink(eng)


def run_late(case, ctx):
    """A list that is changed, or used again, after the engine was built; an unfinished engine can be thrown away."""
    from projectq import MainEngine
    from projectq.ops import X

    es = [Pass(), Pass()]
    r1 = pq.Recorder()
    eng = MainEngine(r1, es)
    keep = list(es)
    es.clear()
    es.append(Pass())
    q = eng.allocate_qubit()
    X | q
    ctx.tr()
    ctx.trace()
    if [c.tags for c in r1.cmds] != [[x.mark for x in keep]] * 2:
        ctx.fail('changing the list afterwards changes the engine', pq.show(r1.cmds))
    del q
    if [name(c) for c in r1.cmds] != ['Allocate', 'X', 'Deallocate']:
        ctx.fail('commands', pq.show(r1.cmds))
    ctx.key('late')
    for flush in (False, True):
        r2 = pq.Recorder()
        eng = MainEngine(r2, [Pass()])
        q = eng.allocate_qureg(2)
        X | q[0]
        if flush:
            eng.flush(deallocate_qubits=True)
            want = ['Allocate', 'Allocate', 'X', 'Deallocate', 'Deallocate', 'Flush']
            if [name(c) for c in r2.cmds] != want or any(x.id != -1 for x in q) or len(eng.active_qubits):
                ctx.fail('flush with deallocation', pq.show(r2.cmds))
            X_ = len(r2.cmds)
            del q
            if len(r2.cmds) != X_:
                ctx.fail('released twice', pq.show(r2.cmds))
        ctx.key(('late', flush))
        sims.sink(eng)
        if not flush:
            for x in q:
                x.id = -1
