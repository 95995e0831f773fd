"""C18: printed and drawn circuits show every command once, in order."""
import io
import itertools
import json
import math
import os
import re
import sys

from mc import pq, sims

ID = 'C18'
RULE = ('all circuits up to a depth over one-, two- and three-qubit gates, controls, swaps, measurement, allocation and release on three wires, x wire assignments x drawing options (LaTeX: ordered or '
        'not, parallel or not, settings; matplotlib: wire orders, labels) x position in the engine chain; the picture (TikZ source, matplotlib artists) is parsed back into a circuit and compared '
        'gate by gate on every wire. Non-trivial: at least two gates share a wire')
ASSUMPTIONS = ['boxes of multi-qubit gates are drawn on neighbouring wires only (a box over a wire in between is ambiguous in either drawer)',
               'a picture shows which qubits control a gate, not their required values (neither drawer nor the printed command has a notation for these)']
CHUNK = 4

ONE = ['H0', 'H1', 'H2', 'Rx0', 'X1', 'Sd2', 'M0', 'M1']
TWO = ['CX01', 'CX10', 'CX02', 'CX20', 'CX12', 'CZ02', 'CZ12', 'CH20', 'CH01', 'SW02', 'SW10', 'SS01', 'SS20', 'SD12', 'QFT01', 'QFT21']
THREE = ['CCX012', 'CCX201', 'CCZ012', 'CSW012', 'CSW102', 'CSS201', 'CQFT012', 'CQFT201', 'QFT012', 'CCH201', 'CRx10']
LIFE = ['D0', 'D2', 'A', 'F']
ALL = ONE + TWO + THREE + LIFE


def cases(tier):
    T = tier != 'quick'
    out = []
    for a in ALL:
        out.append(['latex', [a], 2 if T else 1, 'full', 'all'])
    core = ['H0', 'H1', 'H2', 'X1', 'M1', 'CX01', 'CX20', 'CZ02', 'CH20', 'SW02', 'SS01', 'QFT01', 'CSW102', 'CCX201', 'D0', 'A']
    for a in core:
        for b in core:
            out.append(['latex', [a, b], 2 if T else 1, 'core', 'few'])
    for a in ALL:
        for s in range(len(SETTINGS)):
            out.append(['settings', a, s, T])
    for e in ('first', 'linear', 'manual', 'gap'):
        for a in core:
            out.append(['chain', e, [a], 2 if T else 1])
    for a in ALL:
        out.append(['mpl', [a], 1, 'full' if T else 'core'])
        if T and a in core:
            for b in core:
                out.append(['mpl', [a, b], 1, 'core'])
    for a in ALL:
        out.append(['print', [a], 2 if T else 1])
    for sel in ([9, 10, 11], [10, 9, 8], [2, 10, 11], [11, 1, 10], [1, 2, 12]):
        for a in core if not T else ALL:
            out.append(['many', sel, a, 2 if T else 1])
    out += [['gates', 'latex'], ['gates', 'mpl']]
    out += [['measure', c, e] for c in ('printer', 'latex', 'mpl') for e in ('last', 'linear', 'manual', 'middle')]
    return out


def run(case, ctx):
    globals()['run_' + case[0]](case, ctx)


CORE = ['H0', 'H1', 'H2', 'X1', 'M1', 'CX01', 'CX20', 'CZ02', 'CH20', 'SW02', 'SS01', 'QFT01', 'CSW102', 'CCX201', 'D0', 'A']


# ---------------------------------------------------------------- programs
def gate(name):
    from projectq import ops as o

    return {'H': o.H, 'Rx': o.Rx(0.5), 'X': o.X, 'Sd': o.get_inverse(o.S), 'M': o.Measure, 'CX': o.X, 'CZ': o.Z, 'CH': o.H, 'SW': o.Swap, 'SS': o.SqrtSwap,
            'SD': o.get_inverse(o.SqrtSwap), 'QFT': o.QFT, 'CCX': o.X, 'CCZ': o.Z, 'CSW': o.Swap, 'CSS': o.SqrtSwap, 'CQFT': o.QFT, 'CCH': o.H, 'CRx': o.Rx(0.5)}[name]


NC = {'CX': 1, 'CZ': 1, 'CH': 1, 'CCX': 2, 'CCZ': 2, 'CSW': 1, 'CSS': 1, 'CQFT': 1, 'CCH': 2, 'CRx': 1}
BOX = ('H', 'Rx', 'Sd', 'QFT', 'CQFT', 'CH', 'CCH', 'CRx')


class Prog:
    """Runs letters on an engine; expect = what the picture must contain: (kind, name, targets, controls) in program order, by logical id."""

    def __init__(self, eng, n=3, tex=True):
        self.eng, self.tex = eng, tex
        self.q = [x for x in eng.allocate_qureg(n)]
        self.ids = [x.id for x in self.q]
        self.expect = [('alloc', '', (i,), ()) for i in self.ids]
        self.meas = []

    def do(self, letter):
        from projectq.meta import Control
        from projectq.ops import Measure

        if letter == 'A':
            x = self.eng.allocate_qubit()[0]
            for k, y in enumerate(self.q):
                if y is None:
                    self.q[k] = x
                    break
            else:
                self.q.append(x)
            self.ids.append(x.id)
            self.expect.append(('alloc', '', (x.id,), ()))
            return True
        if letter == 'F':
            self.eng.flush()
            return True
        m = re.match(r'([A-Za-z]+)(\d+)$', letter)
        name, idx = m.group(1), [int(c) for c in m.group(2)]
        if any(self.q[i] is None for i in idx):
            return False
        qs = [self.q[i] for i in idx]
        if name == 'D':
            i = qs[0].id
            self.eng.deallocate_qubit(qs[0])
            self.q[idx[0]] = None
            self.expect.append(('dealloc', '', (i,), ()))
            return True
        if name == 'M':
            Measure | qs[0]
            self.expect.append(('measure', '', (qs[0].id,), ()))
            return True
        k = NC.get(name, 0)
        g = gate(name)
        cs, ts = qs[:k], qs[k:]
        with Control(self.eng, cs):
            if name.endswith(('SW', 'SS', 'SD')):
                g | (ts[0], ts[1])
            else:
                g | ts
        kind = 'x' if name.endswith('X') else 'cz' if name in ('CZ', 'CCZ') else 'swap' if name.endswith('SW') else 'sqrtswap' if name.endswith('SS') else 'sqrtswapdag' if name.endswith('SD') else 'box'
        nm = (g.tex_str() if self.tex and hasattr(g, 'tex_str') else str(g)) if kind == 'box' else ''
        if kind == 'cz':
            self.expect.append(('cz', '', tuple(sorted(x.id for x in qs)), ()))
        else:
            self.expect.append((kind, nm, tuple(sorted(x.id for x in ts)), tuple(sorted(x.id for x in cs))))
        return True

    def done(self):
        self.eng.flush()
        for x in self.q:
            if x is not None:
                x.id = -1
        sims.sink(self.eng)


def drawable(expect, place):
    """Boxes of multi-qubit gates only on neighbouring wires, without a wire in between."""
    for kind, _, t, c in expect:
        if kind == 'box' and len(t) > 1:
            w = sorted(place[i] for i in t)
            if w != list(range(w[0], w[0] + len(w))):
                return False
    return True


def wires(expect, place):
    """wire -> sequence of events"""
    out = {}
    for kind, name, t, c in expect:
        e = (kind, name, tuple(sorted(place[i] for i in t)), tuple(sorted(place[i] for i in c)))
        for i in t + c:
            out.setdefault(place[i], []).append(e)
    return out


# ---------------------------------------------------------------- LaTeX
REF = re.compile(r'\((?:\[[^\]]*\])?\s*([A-Za-z0-9_\-.{}\[\], =()]+?)\)')


class Bad(Exception):
    pass


def parse_latex(text, allow_alloc=True):
    """TikZ source -> {wire: [events]}; raises Bad on dangling references, undefined styles or disconnected pieces."""
    styles = set(re.findall(r'\\tikzstyle\{([^{}]+)\}', text)) | set(re.findall(r'(\w+)/\.style', text))
    known = {'draw', 'circle'}
    body = text[text.index('\\begin{tikzpicture}'):text.rindex('\\end{tikzpicture}')]
    body = '\n'.join(x for x in body.split('\n')[1:] if not x.startswith('\\tikzstyle') and not x.startswith('\\tikzset') and 'preaction' not in x and x.strip() != '}')
    nodes, order = {}, 0
    groups = {}

    def style(s):
        for p in s.split(','):
            p = p.strip()
            if re.match(r'^[A-Za-z]+$', p) and p not in known and p not in styles:
                raise Bad(f'style {p} is not defined')
    parts = re.split(r'\n(?=\\node|\\draw)', '\n' + body)
    elems, edges, boxes, deallocs = [], [], [], []
    for p in parts:
        p = p.strip()
        if not p:
            continue
        if '{self.' in p or '{gate' in p:
            raise Bad(f'not TikZ: {p[:90]}')
        m = re.match(r'\\node\[([^\]]*)\]\s*\(([^()]*)\) at \(([-\d.e]+),-([-\d.e]+)\)\s*\{(.*)\};$', p, re.S)
        if m:
            st, name, x, y, content = m.groups()
            style(st)
            if name in nodes:
                raise Bad(f'node {name} is drawn twice')
            nodes[name] = (st.split(',')[0], float(x), float(y), content)
            continue
        m = re.match(r'\\draw\[(operator[^\]]*)\]\s*\((?:\[[^\]]*\])?([^()\[\]]+)\) rectangle \((?:\[[^\]]*\])?([^()\[\]]+)\) node\[pos=\.5\] \{(.*)\};$', p, re.S)
        if m:
            style(m.group(1))
            boxes.append((m.group(2), m.group(3), m.group(4)))
            continue
        if p.startswith('\\draw'):
            m = re.match(r'\\draw\[([^\]]*)\]', p)
            if m:
                style(m.group(1))
            refs = re.findall(r'\((?:\[[^\]]*\])?([^()\[\]]+)\)', p)
            refs = [r.split('.')[0] for r in refs]
            e = re.search(r'edge\s*\[([^\]]*)\]', p)
            if e:
                style(e.group(1))
                edges.append((refs[0], refs[1], bool(re.search(r'\.center\) edge', p)), '.' in p.split('edge')[0]))
            else:
                edges.append((refs[0], refs[-1], None, None))
            continue
        raise Bad(f'cannot read {p[:120]!r}')
    for a, b, *_ in edges:
        for r in (a, b):
            if r not in nodes:
                raise Bad(f'a line refers to {r}, which is not drawn')
    for a, b, _ in boxes:
        for r in (a, b):
            if r not in nodes:
                raise Bad(f'a box refers to {r}, which is not drawn')
    # ---- vertical structure
    parent = {n: n for n in nodes}

    def find(a):
        while parent[a] != a:
            a = parent[a]
        return a
    hparent = {n: n for n in nodes}

    def hfind(a):
        while hparent[a] != a:
            a = hparent[a]
        return a
    dealloc = set()
    for a, b, center, _ in edges:
        if a == b:
            if center:
                dealloc.add(a)
            continue
        if nodes[a][2] == nodes[b][2]:
            hparent[hfind(a)] = hfind(b)
        else:
            parent[find(a)] = find(b)
    inbox = {}
    for k, (a, b, name) in enumerate(boxes):
        xa, ya, xb, yb = nodes[a][1], nodes[a][2], nodes[b][1], nodes[b][2]
        if yb < ya or xb <= xa:
            raise Bad(f'box {name} from {a} to {b}')
        mem = [n for n, (st, x, y, c) in nodes.items() if st == 'none' and ya <= y <= yb and xa - 1e-9 <= x <= xb + 1e-9 and 'Ket' not in c and n not in dealloc]
        for n in mem:
            if n in inbox:
                raise Bad(f'boxes {name} and {boxes[inbox[n]][2]} overlap')
            inbox[n] = k
            parent[find(n)] = find(mem[0])
            if nodes[n][2] == nodes[mem[0]][2]:
                pass
        for y in {nodes[n][2] for n in mem}:
            row = [n for n in mem if nodes[n][2] == y]
            for n in row:
                hparent[hfind(n)] = hfind(row[0])
    # a control between the two crosses of a swap sits on their line
    crosses = {}
    for n in nodes:
        if nodes[n][0] == 'swapstyle':
            crosses.setdefault(find(n), []).append(n)
    for l in crosses.values():
        lo, hi = min(nodes[n][2] for n in l), max(nodes[n][2] for n in l)
        for n, (st, x, y, c) in nodes.items():
            if st == 'phase' and x == nodes[l[0]][1] and lo < y < hi:
                parent[find(n)] = find(l[0])
    comp = {}
    for n in nodes:
        comp.setdefault(find(n), []).append(n)
    ev = {}
    for members in comp.values():
        st = {}
        for n in members:
            st.setdefault(nodes[n][0], []).append(n)
        x = min(nodes[n][1] for n in members)
        x2 = max(nodes[n][1] for n in members)
        ph = tuple(sorted(nodes[n][2] for n in st.get('phase', [])))
        bx = sorted({inbox[n] for n in members if n in inbox})
        if bx:
            if len(bx) > 1 or st.get('xstyle') or st.get('swapstyle') or st.get('measure'):
                raise Bad(f'two gates in one: {members}')
            a, b, name = boxes[bx[0]]
            lo, hi = int(nodes[a][2]), int(nodes[b][2])
            e = ('box', name, tuple(range(lo, hi + 1)), ph)
        elif 'swapstyle' in st:
            if len(st['swapstyle']) != 2:
                raise Bad(f'swap of {members}')
            t = tuple(sorted(nodes[n][2] for n in st['swapstyle']))
            if 'xstyle' in st:
                c = nodes[st['xstyle'][0]][3]
                e = ('sqrtswapdag' if 'dagger' in c else 'sqrtswap', '', t, ph)
            else:
                e = ('swap', '', t, ph)
        elif 'xstyle' in st:
            if len(st['xstyle']) != 1:
                raise Bad(f'two targets: {members}')
            e = ('x', '', (nodes[st['xstyle'][0]][2],), ph)
        elif ph and len(st) == 1:
            e = ('cz', '', ph, ())
        elif 'measure' in st and len(members) == 1:
            e = ('measure', '', (nodes[members[0]][2],), ())
        elif members[0] in dealloc and len(members) == 1:
            e = ('dealloc', '', (nodes[members[0]][2],), ())
        elif len(members) == 1 and 'Ket{0}' in nodes[members[0]][3]:
            e = ('alloc', '', (nodes[members[0]][2],), ())
        else:
            raise Bad(f'cannot interpret {[(n, nodes[n]) for n in members]}')
        if any(v != int(v) for v in e[2] + e[3]):
            raise Bad(f'not on a wire: {e}')
        e = (e[0], e[1], tuple(int(v) for v in e[2]), tuple(int(v) for v in e[3]))
        for w in set(e[2] + e[3]):
            ev.setdefault(w, []).append((x, x2, e))
    out = {}
    for w, l in ev.items():
        l.sort(key=lambda t: (t[0], t[1]))
        for (a, b, e), (c, d, f) in zip(l, l[1:]):
            if c <= b - 1e-9 or c == a:
                raise Bad(f'{e} and {f} overlap on wire {w}')
        out[w] = [e for _, _, e in l]
    # nothing else may stand where a gate's vertical lines pass
    spans = {}
    for w, l in ev.items():
        for a, b, e in l:
            spans[e, a] = (a, b)
    for (e, a0), (a, b) in spans.items():
        ws = e[2] + e[3]
        for w in range(min(ws) + 1, max(ws)):
            if w in ws:
                continue
            for c, d, f in ev.get(w, []):
                if c <= b + 1e-9 and d >= a - 1e-9:
                    raise Bad(f'{f} is drawn inside {e}')
    # wires: everything from an allocation to the next one hangs together
    per = {}
    for n, (st, x, y, c) in nodes.items():
        if y == int(y):
            per.setdefault(int(y), []).append((x, n))
    for y, l in per.items():
        l.sort()
        cur = None
        for x, n in l:
            if nodes[n][0] == 'xstyle' and 'frac' in nodes[n][3]:
                continue
            if 'Ket' in nodes[n][3] or cur is None:
                cur = hfind(n)
            elif hfind(n) != cur:
                raise Bad(f'wire {y} is interrupted before {n}')
    return out


def make_latex(letters, place=None, n=3, engines=None, sel=None):
    """Runs the program; returns drawer, Prog (or None if the program is not possible)."""
    from projectq import MainEngine
    from projectq.backends import CircuitDrawer

    d = CircuitDrawer()
    if place is not None:
        d.set_qubit_locations(dict(place))
    eng = MainEngine(d, engines or [])
    p = Prog(eng, n)
    if sel:
        p.q = [p.q[i] for i in sel] + [y for i, y in enumerate(p.q) if i not in sel]
    for x in letters:
        if not p.do(x):
            p.done()
            return None, None
    p.done()
    return d, p


def check_picture(got, expect, place, what, kind, ctx):
    want = wires(expect, place)
    if got != want:
        for w in sorted(set(got) | set(want)):
            if got.get(w) != want.get(w):
                ctx.fail(f'{kind} differs', f'{what}: wire {w}: program {want.get(w)}, picture {got.get(w)}')
                return False
    return True


def latex_case(letters, place, options, ctx, kind='latex', pre=None, twice=False, n=3, sel=None):
    d, p = make_latex(letters, place, n, sel=sel)
    if d is None:
        return
    pl = place or {i: i for i in p.ids}
    if any(i not in pl for i in p.ids) or not drawable(p.expect, pl):
        return
    ctx.tr(len(p.expect))
    for o in options:
        what = f'{letters} at {place or "default"} {o}'
        try:
            text = d.get_latex(**o)
            got = parse_latex(text)
        except Bad as e:
            ctx.fail(f'{kind} picture {re.sub("[0-9]+", "#", str(e))[:60]}', f'{what}: {e}')
            return
        except Exception as e:  # noqa
            ctx.fail(f'{kind} raises {type(e).__name__}', f'{what}: {type(e).__name__}: {e}')
            return
        ctx.trace()
        if not check_picture(got, p.expect, pl, what, kind, ctx):
            return
        if twice and d.get_latex(**o) != text:
            ctx.fail(f'{kind} second drawing', f'{what}: the second drawing differs from the first')
            return
        if any(len(v) > 2 for v in got.values()):
            ctx.key((kind, tuple(letters), str(place), str(o)))
    ctx.state((kind, tuple(letters)))


OPTS = [dict(ordered=a, draw_gates_in_parallel=b) for a in (False, True) for b in (True, False)]
PLACES = [None] + [dict(zip(range(3), p)) for p in itertools.permutations(range(3))][1:]
PLACES4 = [{0: 2, 1: 0, 2: 3, 3: 1}, {0: 0, 1: 1, 2: 2, 3: 3}]


def run_latex(case, ctx):
    _, prefix, more, alpha, how = case
    defaults()
    for d in range(more + 1):
        for tail in itertools.product(ALL if alpha == 'full' else CORE, repeat=d):
            letters = prefix + list(tail)
            if how == 'all':
                for pl in PLACES + (PLACES4 if 'A' in letters else []):
                    latex_case(letters, pl, OPTS if d < 2 else OPTS[:3:2], ctx, twice=d == 0)
            else:
                latex_case(letters, None, OPTS, ctx)
                latex_case(letters, PLACES[4], OPTS[1:3], ctx)
            if len(ctx.violations) > 40:
                return


# ---- settings.json
SETTINGS = [
    {'gate_shadow': False},
    {'control': {'shadow': True}},
    {'gate_shadow': False, 'control': {'shadow': True}},
    {'lines': {'double_classical': False}},
    {'lines': {'init_quantum': False}},
    {'lines': {'style': 'thick', 'double_lines_sep': 0.1}},
    {'gates': {'AllocateQubitGate': {'draw_id': True}}},
    {'gates': {'AllocateQubitGate': {'allocate_at_zero': True}}},
    {'gates': {'HGate': {'width': 2.0, 'offset': 0.7, 'pre_offset': 0.4}, 'XGate': {'width': 0.6, 'height': 0.4, 'offset': 0.2, 'pre_offset': 0.3}, 'QFTGate': {'width': 3.0, 'height': 1.5, 'offset': 0.4}}},
]


def defaults(change=None):
    from projectq.backends._circuits import _to_latex

    if change is None:
        if os.path.exists('settings.json'):
            os.remove('settings.json')
        return
    s = _to_latex.get_default_settings()

    def merge(a, b):
        for k, v in b.items():
            if isinstance(v, dict):
                merge(a.setdefault(k, {}), v)
            else:
                a[k] = v
    merge(s, change)
    with open('settings.json', 'w') as f:
        json.dump(s, f)


def run_settings(case, ctx):
    _, a, s, T = case
    defaults(SETTINGS[s])
    try:
        for b in ALL if T else CORE:
            latex_case([a, b], None, [OPTS[0], OPTS[3]], ctx, kind='latex settings')
            latex_case([b, a], PLACES[3], OPTS[:1], ctx, kind='latex settings')
            if len(ctx.violations) > 40:
                return
    finally:
        defaults()


# ---------------------------------------------------------------- position in the chain
def run_chain(case, ctx):
    """Drawers in the middle of a chain or behind mappers: commands forwarded unchanged, everything that passed is in the picture."""
    from projectq import MainEngine
    from projectq.backends import CircuitDrawer, CircuitDrawerMatplotlib, CommandPrinter
    from projectq.cengines import LinearMapper, ManualMapper

    _, kind, prefix, more = case
    defaults()
    for d in range(more + 1):
        for tail in itertools.product(CORE, repeat=d):
            letters = prefix + list(tail)
            before, after = pq.Recorder(), pq.Recorder()
            d1, d2 = CircuitDrawer(), CircuitDrawerMatplotlib()
            pr = CommandPrinter()
            engs = {'first': [], 'linear': [LinearMapper(5)], 'manual': [ManualMapper(lambda i: (i + 1) % 5)], 'gap': [ManualMapper(lambda i: 2 * i + 3)]}[kind]
            if kind == 'linear' and any(x in letters for x in ('CSW102', 'CCX201')):
                continue
            old, buf = sys.stdout, io.StringIO()
            sys.stdout = buf
            try:
                eng = MainEngine(after, engs + [before, d1, pr, d2])
                p = Prog(eng)
                ok = all(p.do(x) for x in letters)
                p.done()
            finally:
                sys.stdout = old
            if not ok:
                continue
            ctx.tr(len(letters))
            what = f'{kind} chain, {letters}'
            a, b = [pq.str_cmd(c) for c in before.cmds], [pq.str_cmd(c) for c in after.cmds]
            if a != b:
                ctx.fail('not forwarded', f'{what}: received {a}, forwarded {b}')
                return
            lines = buf.getvalue().split('\n')[:-1]
            want = [str(c) for c in before.cmds if type(c.gate).__name__ != 'FlushGate']
            if lines != want:
                ctx.fail('printed', f'{what}: printed {lines}, commands {want}')
                return
            expect = events_of(before.cmds)
            ids = sorted({i for e in expect for i in e[2] + e[3]})
            pl = {i: i for i in ids}
            if not drawable(expect, {i: k for k, i in enumerate(ids)}) or not drawable(expect, pl):
                continue
            for o in OPTS:
                try:
                    got = parse_latex(d1.get_latex(**o))
                except Bad as e:
                    ctx.fail(f'chain picture {re.sub("[0-9]+", "#", str(e))[:60]}', f'{what} {o}: {e}')
                    return
                except Exception as e:  # noqa
                    ctx.fail(f'chain raises {type(e).__name__}', f'{what} {o}: {type(e).__name__}: {e}')
                    return
                if not check_picture(got, expect, pl, f'{what} {o}', 'chain', ctx):
                    return
            ctx.trace()
            ctx.key((kind, tuple(letters)))
            if d <= 1 and letters[-1] in ('CX20', 'D0', 'A', 'CZ02', 'M1', 'H2', 'QFT01'):
                if not mpl_picture(d2, events_of(before.cmds, False), None, what, ctx):
                    return


def events_of(cmds, tex=True):
    out = []
    for c in cmds:
        n = type(c.gate).__name__
        if n == 'FlushGate':
            continue
        t = tuple(sorted(q.id for r in c.qubits for q in r))
        k = tuple(sorted(q.id for q in c.control_qubits))
        g = str(c.gate)
        if n == 'AllocateQubitGate':
            e = ('alloc', '', t, k)
        elif n == 'DeallocateQubitGate':
            e = ('dealloc', '', t, k)
        elif n == 'MeasureGate':
            e = ('measure', '', t, k)
        elif n == 'XGate':
            e = ('x', '', t, k)
        elif n == 'ZGate' and k:
            e = ('cz', '', tuple(sorted(t + k)), ())
        elif n == 'SwapGate':
            e = ('swap', '', t, k)
        elif n == 'SqrtSwapGate':
            e = ('sqrtswap', '', t, k)
        else:
            e = ('box', c.gate.tex_str() if tex and hasattr(c.gate, 'tex_str') else g, t, k)
        out.append(e)
    return out


# ---------------------------------------------------------------- matplotlib
def read_mpl(fig, axes, labels):
    """Artists -> {wire y index: [events]}"""
    from matplotlib.collections import LineCollection
    from matplotlib.patches import Circle, Rectangle

    wl = [c for c in axes.collections if c.get_label() == 'qubit_wires']
    if len(wl) != 1:
        raise Bad(f'{len(wl)} sets of wires')
    ys = [seg[0][1] for seg in wl[0].get_segments()]
    xs = [seg[0][0] for seg in wl[0].get_segments()] + [seg[1][0] for seg in wl[0].get_segments()]
    if any(abs(a - b) < 1e-9 for a, b in itertools.combinations(ys, 2)):
        raise Bad('two wires in one place')

    def wire(y):
        for k, v in enumerate(ys):
            if abs(v - y) < 1e-6:
                return k
        return None
    elems = []  # (x, kind, name, wires, span)
    used = set()
    boxes = [p for p in axes.patches if isinstance(p, Rectangle)]
    labs = {}
    for t in axes.texts:
        x, y = t.get_position()
        hit = None
        for k, b in enumerate(boxes):
            bx, by = b.get_x(), b.get_y()
            if k not in used and abs(bx + b.get_width() / 2 - x) < 1e-6 and abs(by + b.get_height() / 2 - y) < 1e-6:
                hit = k
                break
        if hit is None:
            labs.setdefault(wire(y), []).append(t.get_text())
            continue
        used.add(hit)
        b = boxes[hit]
        ws = [k for k, v in enumerate(ys) if b.get_y() - 1e-9 <= v <= b.get_y() + b.get_height() + 1e-9]
        elems.append((x, 'box', t.get_text(), ws))
    if len(used) != len(boxes):
        raise Bad('box without name')
    for c in axes.collections:
        lab = c.get_label()
        if lab == 'qubit_wires':
            continue
        if lab == 'NOT':
            e = c.get_paths()[0].get_extents()
            elems.append(((e.x0 + e.x1) / 2, 'x', '', [wire((e.y0 + e.y1) / 2)]))
        elif lab == 'SWAP':
            s = c.get_segments()
            x = s[-1][0][0]
            elems.append((x, 'swap', '', [wire(s[-1][0][1]), wire(s[-1][1][1])]))
        elif lab == 'CZ':
            ps = c.get_paths()
            y = []
            for q in ps[:2]:
                e = q.get_extents()
                y.append(wire((e.y0 + e.y1) / 2))
                x = (e.x0 + e.x1) / 2
            elems.append((x, 'cz', '', y))
        elif lab == 'Measure':
            e = c.get_paths()[0].get_extents()
            elems.append(((e.x0 + e.x1) / 2, 'measure', '', [wire((e.y0 + e.y1) / 2)]))
        else:
            raise Bad(f'unknown artist {lab}')
    ctrl = []
    for p in axes.patches:
        if isinstance(p, Circle):
            ctrl.append((p.center[0], wire(p.center[1])))
    vert = []
    for ln in axes.lines:
        x, y = ln.get_data()
        if abs(x[0] - x[1]) > 1e-9:
            raise Bad('slanted line')
        vert.append((x[0], wire(min(y)), wire(max(y))))
    # group: elements of one column joined by vertical lines
    ev = {}
    items = [dict(x=x, kind=k, name=n, t=set(w), c=set()) for x, k, n, w in elems]
    for x, w in ctrl:
        if w is None:
            raise Bad('control off the wires')
        vs = [v for v in vert if abs(v[0] - x) < 1e-9 and v[1] <= w <= v[2]]
        if not vs:
            raise Bad(f'control on wire {w} is not connected')
        lo, hi = vs[0][1], vs[0][2]
        own = [i for i in items if abs(i['x'] - x) < 1e-9 and any(lo <= k <= hi for k in i['t'])]
        if len(own) != 1:
            raise Bad(f'control on wire {w} belongs to {len(own)} gates')
        own[0]['c'].add(w)
    for i in items:
        if None in i['t']:
            raise Bad(f'{i} is not on a wire')
        e = (i['kind'], i['name'], tuple(sorted(i['t'])), tuple(sorted(i['c'])))
        if e[0] == 'cz' and e[3]:
            e = ('cz', '', tuple(sorted(set(e[2] + e[3]))), ())
        ws = e[2] + e[3]
        for j in items:
            if j is not i and abs(j['x'] - i['x']) < 1e-9 and any(min(ws) <= k <= max(ws) for k in j['t'] | j['c']):
                raise Bad(f'{j} is drawn inside {e}')
        for w in set(ws):
            ev.setdefault(w, []).append((i['x'], e))
    out = {}
    for w, l in ev.items():
        l.sort(key=lambda t: t[0])
        out[w] = [e for _, e in l]
    if any(x < min(xs) - 1e-9 or x > max(xs) + 1e-9 for x in [i['x'] for i in items]):
        raise Bad('gate beyond the end of the wires')
    return out, labs


def mpl_picture(d, expect, order, what, ctx, labels=None):
    import matplotlib

    matplotlib.use('Agg')
    import matplotlib.pyplot as plt

    ids = []
    for e in expect:
        if e[0] == 'alloc' and e[2][0] not in ids:
            ids.append(e[2][0])
    # default order: the first qubit is the top wire
    pl = order or {i: len(ids) - 1 - k for k, i in enumerate(sorted(ids))}
    kw = {}
    if order is not None:
        kw['drawing_order'] = dict(order)
    if labels is not None:
        kw['qubit_labels'] = {i: f'lab{i}' for i in ids}
    want = {}
    for kind, name, t, c in expect:
        if kind in ('alloc', 'dealloc'):
            continue
        if kind in ('sqrtswap', 'sqrtswapdag'):
            name = {'sqrtswap': 'SqrtSwap', 'sqrtswapdag': 'SqrtSwap^\\dagger'}[kind]
            kind = 'box'
        if kind == 'cz' and len(t) > 2:
            kind, name = 'czbox', ''
        if kind == 'box':
            name = None
        e = (kind, name, tuple(sorted(pl[i] for i in t)), tuple(sorted(pl[i] for i in c)))
        for i in t + c:
            want.setdefault(pl[i], []).append(e)
    pics = []
    for rep in range(2):
        try:
            fig, axes = d.draw(**kw)
            got, labs = read_mpl(fig, axes, labels)
        except Bad as e:
            ctx.fail(f'mpl picture {re.sub("[0-9]+", "#", str(e))[:50]}', f'{what}: {e}')
            return False
        except Exception as e:  # noqa
            ctx.fail(f'mpl raises {type(e).__name__} {re.sub("[0-9.]+", "#", str(e))[:40]}', f'{what}: {type(e).__name__}: {e}')
            return False
        finally:
            plt.close('all')
        pics.append(got)
        if rep:
            break
    ctx.trace()
    if pics[0] != pics[-1]:
        ctx.fail('mpl second drawing', f'{what}: {pics[0]} then {pics[1]}')
        return False

    def norm(l):
        out = []
        for k, n, t, c in l:
            if k == 'box' and len(t) == 1 and n == 'Z' and len(c) > 1:  # a Z with several controls is drawn as a box with controls
                k, n, t, c = 'czbox', '', tuple(sorted(t + c)), ()
            out.append((k, None if k == 'box' else n, t, c))
        return out
    for w in sorted(set(pics[0]) | set(want)):
        if norm(pics[0].get(w, [])) != want.get(w, []):
            ctx.fail('mpl differs', f'{what}: wire {w}: program {want.get(w)}, picture {pics[0].get(w)}')
            return False
    # names of the boxes, in order
    for i in ids:
        lab = labs.get(pl[i], [])
        if lab != ([f'lab{i}'] if labels else [r'$|0\rangle$']):
            ctx.fail('mpl labels', f'{what}: wire of qubit {i} is labelled {lab}')
            return False
    names = [n for k, n, t, c in {e for l in pics[0].values() for e in l} if k == 'box']
    have = {str(n) for n in names}
    for n in have:
        if not any(n.split('(')[0] == s.split('(')[0] for s in BOXNAMES()):
            ctx.fail('mpl names', f'{what}: box named {n}')
            return False
    seq_want, seq_got = {}, {}
    for kind, name, t, c in expect:
        nm = {'sqrtswap': 'SqrtSwap', 'sqrtswapdag': 'SqrtSwap^\\dagger'}.get(kind, name)
        if kind in ('box', 'sqrtswap', 'sqrtswapdag'):
            for i in t + c:
                seq_want.setdefault(pl[i], []).append(nm.split('(')[0])
    for w, l in pics[0].items():
        s = [n.split('(')[0] for k, n, t, c in l if k == 'box' and not (n == 'Z' and len(c) > 1)]
        if s:
            seq_got[w] = s
    if seq_want != seq_got:
        ctx.fail('mpl names', f'{what}: boxes {seq_want}, drawn {seq_got}')
        return False
    return True


def BOXNAMES():
    from projectq import ops as o

    return [str(g) for g in (o.H, o.Rx(0.5), o.get_inverse(o.S), o.QFT, o.SqrtSwap, o.get_inverse(o.SqrtSwap), o.Z)]


def run_mpl(case, ctx):
    from projectq import MainEngine
    from projectq.backends import CircuitDrawerMatplotlib

    _, prefix, more, alpha = case
    for k in range(more + 1):
        for tail in itertools.product(ALL if alpha == 'full' else CORE, repeat=k):
            letters = prefix + list(tail)
            d = CircuitDrawerMatplotlib()
            eng = MainEngine(d, [])
            p = Prog(eng, tex=False)
            ok = all(p.do(x) for x in letters)
            p.done()
            if not ok:
                continue
            ctx.tr(len(letters))
            ids = sorted(p.ids)
            n = len(ids)
            orders = [None] + ([dict(zip(ids, q)) for q in itertools.permutations(range(n))] if k == 0 else [dict(zip(ids, [(2 * j + 1) % n if n == 3 else (j + 1) % n for j in range(n)]))])
            for j, o in enumerate(orders):
                pl = o or {i: n - 1 - r for r, i in enumerate(ids)}
                if not mpl_ok(p.expect, pl):
                    continue
                if not mpl_picture(d, p.expect, o, f'{letters} order {o}', ctx, labels=True if j % 2 else None):
                    return
                ctx.key(('mpl', tuple(letters), str(o)))
            ctx.state(('mpl', tuple(letters)))


def run_many(case, ctx):
    """thirteen wires: ids and locations of one and of two digits"""
    _, sel, first, depth = case
    defaults()
    n = 13
    for k in range(depth):
        for tail in itertools.product(CORE, repeat=k):
            letters = [first] + list(tail)
            for pl in (None, {i: n - 1 - i for i in range(n)}, {i: (i * 5 + 3) % n for i in range(n)}):
                if 'A' in letters and pl:
                    pl = {**pl, **{n + j: n + j for j in range(letters.count('A'))}}
                latex_case(letters, pl, OPTS, ctx, 'latex many', n=n, sel=sel)
            if not mpl_many(letters, n, sel, ctx):
                return


def mpl_many(letters, n, sel, ctx):
    from projectq import MainEngine
    from projectq.backends import CircuitDrawerMatplotlib

    d = CircuitDrawerMatplotlib()
    eng = MainEngine(d, [])
    p = Prog(eng, n, tex=False)
    p.q = [p.q[i] for i in sel] + [y for i, y in enumerate(p.q) if i not in sel]
    ok = all(p.do(x) for x in letters)
    p.done()
    if not ok:
        return True
    ids = sorted(p.ids)
    m = len(ids)
    for o in (None, {i: (r * 5 + 3) % m for r, i in enumerate(ids)}) if m % 5 else (None,):
        pl = o or {i: m - 1 - r for r, i in enumerate(ids)}
        if mpl_ok(p.expect, pl):
            ctx.key(('mpl many', tuple(sel), tuple(letters), str(o)))
            if not mpl_picture(d, p.expect, o, f'{letters} on {sel} of {n} order {o}', ctx, labels=None):
                return False
    return True


def mpl_ok(expect, pl):
    """matplotlib drawer: multi-qubit boxes (including square roots of swap) on neighbouring wires only."""
    e = [('box', n, t, c) if k in ('sqrtswap', 'sqrtswapdag') else (k, n, t, c) for k, n, t, c in expect]
    return drawable(e, pl)


# ---------------------------------------------------------------- every gate has a name in every drawer
def run_gates(case, ctx):
    from projectq import MainEngine
    from projectq.backends import CircuitDrawer, CircuitDrawerMatplotlib
    from projectq import ops as o
    from projectq.libs.math import AddConstant, AddConstantModN, MultiplyByConstantModN

    h = o.QubitOperator('X0 Y1', 0.5) + o.QubitOperator('Z1', 1.5)
    gates = [(g, 1) for g in (o.H, o.X, o.Y, o.Z, o.S, o.T, o.SqrtX, o.get_inverse(o.T), o.Rx(0.1), o.Ry(12.5), o.Rz(3.0), o.R(0.3), o.Ph(0.2), o.MatrixGate([[0, 1], [1, 0]]), o.Measure, o.Barrier)]
    gates += [(g, 2) for g in (o.Swap, o.SqrtSwap, o.QFT, o.get_inverse(o.QFT), o.Entangle, o.Rxx(0.3), o.Ryy(0.3), o.Rzz(0.3), o.TimeEvolution(0.5, h), o.QubitOperator('X0 Y1'), o.Barrier,
                                o.StatePreparation([0.5, 0.5, 0.5, 0.5]), AddConstant(1), AddConstantModN(1, 3), MultiplyByConstantModN(2, 3), o.MatrixGate([[1, 0, 0, 0], [0, 1, 0, 0], [0, 0, 0, 1], [0, 0, 1, 0]]))]
    for g, n in gates:
        for perm in itertools.permutations(range(n)):
            d = CircuitDrawer() if case[1] == 'latex' else CircuitDrawerMatplotlib()
            eng = MainEngine(d, [])
            q = eng.allocate_qureg(n)
            what = f'{case[1]}: {type(g).__name__} on {perm}'
            try:
                arg = [q[i] for i in perm]
                if type(g).__name__ in ('SwapGate', 'SqrtSwapGate', 'Rxx', 'Ryy', 'Rzz'):
                    g | (arg[0], arg[1])
                else:
                    g | arg
                o.H | q[0]
                eng.flush()
                for x in q:
                    x.id = -1
                sims.sink(eng)
                ctx.tr()
                if case[1] == 'latex':
                    got = parse_latex(d.get_latex())
                    last = [[e[0] for e in got[i]] for i in range(n)]
                    names = [e[1] for e in got[0] if e[0] == 'box']
                else:
                    import matplotlib

                    matplotlib.use('Agg')
                    import matplotlib.pyplot as plt

                    got, _ = read_mpl(*d.draw(), None)
                    plt.close('all')
                    last = [[e[0] for e in got.get(n - 1 - i, [])] for i in range(n)]
                    names = [e[1] for e in got[n - 1] if e[0] == 'box']
                    last = [['alloc'] + x for x in last]
            except Bad as e:
                ctx.fail(f'{case[1]} gate {type(g).__name__}', f'{what}: {e}')
                continue
            except Exception as e:  # noqa
                ctx.fail(f'{case[1]} gate {type(g).__name__}', f'{what}: {type(e).__name__}: {e}')
                continue
            ctx.trace()
            ctx.key(what)
            if [len(x) for x in last] != [3 if i == 0 else 2 for i in range(n)] or not names or names[-1] != 'H':
                ctx.fail(f'{case[1]} gate {type(g).__name__}', f'{what}: wires show {last}, names {names}')


# ---------------------------------------------------------------- printer
def run_print(case, ctx):
    from projectq import MainEngine
    from projectq.backends import CommandPrinter
    from projectq.cengines import DummyEngine

    _, prefix, more = case
    for k in range(more + 1):
        for tail in itertools.product(ALL, repeat=k):
            letters = prefix + list(tail)
            for last in (True, False):
                for in_place in (False, True) if k == 0 else (False,):
                    old, buf = sys.stdout, io.StringIO()
                    sys.stdout = buf
                    rec, rec2 = pq.Recorder(), pq.Recorder()
                    try:
                        pr = CommandPrinter(accept_input=False, in_place=in_place)
                        eng = MainEngine(pr, [rec]) if last else MainEngine(rec2, [rec, pr])
                        p = Prog(eng)
                        ok = all(p.do(x) for x in letters)
                        p.done()
                    finally:
                        sys.stdout = old
                    if not ok:
                        continue
                    ctx.tr(len(letters))
                    want = [render(c) for c in rec.cmds if type(c.gate).__name__ != 'FlushGate']
                    text = buf.getvalue()
                    if in_place:
                        got = [x for x in re.split(r'\x1b\[K|\r|\n|\0|\t', text) if x.strip()]
                    else:
                        got = text.split('\n')[:-1]
                    ctx.trace()
                    if got != want:
                        ctx.fail('printer', f'{letters} last={last} in_place={in_place}: printed {got}, commands {want}')
                        return
                    if not last and [pq.str_cmd(c) for c in rec.cmds] != [pq.str_cmd(c) for c in rec2.cmds]:
                        ctx.fail('printer forwards', f'{letters}: forwarded {pq.show(rec2.cmds)}')
                        return
                    ctx.key(('print', tuple(letters), last, in_place))


def render(c):
    """The documented notation: C per control, gate | registers, controls first."""
    regs = [[q.id for q in r] for r in c.qubits]
    if len(c.control_qubits):
        regs = [[q.id for q in c.control_qubits]] + regs

    def reg(ids):
        if not ids:
            return 'Qureg[]'
        out, k = [], 0
        while k < len(ids):
            j = k
            while j + 1 < len(ids) and ids[j + 1] == ids[j] + 1:
                j += 1
            if j > k:
                out.append(f'{ids[k]}-{ids[j]}')
            else:
                out += [str(x) for x in ids[k:j + 1]]
            k = j + 1
        return f'Qureg[{", ".join(out)}]'
    s = reg(regs[0]) if len(regs) == 1 else '( ' + ', '.join(reg(r) for r in regs) + ' )'
    return 'C' * len(c.control_qubits) + str(c.gate) + ' | ' + s


# ---------------------------------------------------------------- supplied measurement outcomes
def run_measure(case, ctx):
    import builtins

    from projectq import MainEngine
    from projectq.backends import CircuitDrawer, CircuitDrawerMatplotlib, CommandPrinter
    from projectq.cengines import LinearMapper, ManualMapper, NotYetMeasuredError
    from projectq.ops import CNOT, H, Measure

    _, cls, place = case
    C = {'printer': CommandPrinter, 'latex': CircuitDrawer, 'mpl': CircuitDrawerMatplotlib}[cls]
    for accept in (False, True):
        for default in (0, 1) if not accept else (0,):
            for order in itertools.permutations(range(3)):
                for k in range(1, 4):
                    for vals in itertools.product((0, 1), repeat=k) if accept else [(default,) * k]:
                        be = C(accept_input=accept, default_measure=default)
                        rec = pq.Recorder()
                        engs = {'last': [], 'linear': [LinearMapper(3)], 'manual': [ManualMapper(lambda i: (i + 1) % 3)], 'middle': []}[place]
                        old, oldin = sys.stdout, builtins.input
                        sys.stdout = io.StringIO()
                        feed = iter([w for v in vals for w in ('maybe', str(v))])
                        asked = []

                        def fake(prompt='', feed=feed, asked=asked):
                            asked.append(prompt)
                            return next(feed)
                        builtins.input = fake
                        err = None
                        try:
                            rec.measure = 1
                            eng = MainEngine(be, engs) if place != 'middle' else MainEngine(rec, [be])
                            q = eng.allocate_qureg(3)
                            CNOT | (q[order[0]], q[order[1]])
                            CNOT | (q[order[0]], q[order[2]])
                            CNOT | (q[order[1]], q[order[2]]) if place != 'linear' else None
                            eng.flush()
                            for i in order[:k]:
                                Measure | q[i]
                            eng.flush()
                            got = {}
                            for i in range(3):
                                try:
                                    got[i] = int(q[i])
                                except NotYetMeasuredError:
                                    pass
                        except Exception as e:  # noqa
                            err = e
                        finally:
                            sys.stdout, builtins.input = old, oldin
                        for x in q:
                            x.id = -1
                        sims.sink(eng)
                        ctx.tr(k)
                        ctx.trace()
                        what = f'{cls} {place}: measured {order[:k]}, outcomes {vals} ({"input" if accept else "default"})'
                        if err is not None:
                            ctx.fail(f'measure {cls} raises', f'{what}: {type(err).__name__}: {err}')
                            return
                        want = {i: v for i, v in zip(order, vals)} if place != 'middle' else {i: 1 for i in order[:k]}
                        if place == 'middle' and asked:
                            ctx.fail(f'measure {cls} asks', f'{what}: asked for outcomes although the backend measures')
                            return
                        if got != want:
                            ctx.fail(f'measure {cls} {place}', f'{what}: recorded {got}, expected {want}')
                            return
                        ctx.key((cls, place, order, vals, accept))
