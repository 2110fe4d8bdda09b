"""P27: measurement patterns on cluster states."""
import itertools
from fractions import Fraction
from symx.run import Harness
from symx import gen
import pyzx as zx
from pyzx import mbqc
from pyzx.simplify import full_reduce, spider_simp
from pyzx.utils import VertexType as VT, EdgeType as ET
from .p18 import snap

LEVEL = 'other'
EXPLANATION = ('The real cluster states, measurements and corrections run on histories whose positions, kinds, bases and phases are solver variables; every branch on one is decided by the solver. '
               'The map of the resulting diagram is compared, as an exact expression in the phases, with that of a cluster state on which the same operations are composed independently.')
ASSUMPTIONS = ['maps are compared up to a scalar']
BUDGET = {'quick': 60, 'thorough': 900}


class Ref:
    """the cluster state with every operation appended to the wire of its qubit"""

    def __init__(self, m, n, inputs):
        self.h, self.m, self.n = zx.Graph(), m, n
        self.gone = set()
        h, v = self.h, {}
        for c in range(n):
            for r in range(m):
                v[r, c] = h.add_vertex(VT.Z, 0, 0)
        for (r, c) in v:
            for o in ((r + 1, c), (r, c + 1)):
                if o in v:
                    h.add_edge((v[r, c], v[o]), ET.HADAMARD)
        self.end = {p: [v[p], None] for p in v}
        ins = []
        for p in sorted(inputs):
            b = h.add_vertex(VT.BOUNDARY)
            h.add_edge((b, v[p]), ET.SIMPLE)
            ins.append(b)
        h.set_inputs(tuple(ins))

    def put(self, p, t, phase):
        w = self.h.add_vertex(t, 0, 0, phase=phase)
        self.h.add_edge((self.end[p][0], w), ET.SIMPLE)
        self.end[p][0] = w

    def diagram(self):
        outs = []
        for p in sorted(self.end):
            if p not in self.gone:
                b = self.h.add_vertex(VT.BOUNDARY)
                self.h.add_edge((self.end[p][0], b), ET.SIMPLE)
                outs.append(b)
        self.h.set_outputs(tuple(outs))
        return self.h


def history(S, grids, k, den, kinds=('measure', 'pauli'), outside=False):
    m, n = S.choose('grid', grids)
    cells = list(itertools.product(range(m), range(n)))
    ins = set(S.subset('ins', cells)) if len(cells) <= 3 else set(S.choose('ins', [(), (cells[0],), (cells[-1], cells[0]), (cells[1],)]))
    order = list(ins)
    if S.flag('rev'):
        order.reverse()
    g = mbqc.cluster_state(m, n, inputs=order)
    ref = Ref(m, n, ins)
    places = cells + ([(m, 0), (0, -1), (0, n)] if outside else [])
    for i in range(k):
        kind = S.choose('k%d' % i, kinds) if len(kinds) > 1 else kinds[0]
        p = S.choose('p%d' % i, places)
        t = S.choose('t%d' % i, (VT.Z, VT.X))
        before = snap(g)
        try:
            if kind == 'measure':
                ph = S.phase('a%d' % i, den)
                mbqc.measure(g, p, t, ph)
            else:
                ph = S.choose('a%d' % i, (1, 0, Fraction(1))) if outside else 1
                mbqc.apply_pauli(g, p, t, ph)
            ok = True
        except ValueError:
            ok = False
        if kind == 'pauli' and ph == 0:
            S.require(ok and snap(g) == before, 'no correction changes the diagram')
            continue
        S.require(ok == (p in cells and p not in ref.gone), 'an operation on a missing or measured qubit')
        if not ok:
            S.require(snap(g) == before, 'a refused operation changes the diagram')
            S.witness('refused')
            continue
        ref.put(p, t, ph)
        if kind == 'measure':
            ref.gone.add(p)
    return g, ref


def h_history(S, grids, k, den=4, kinds=('measure', 'pauli'), outside=False):
    g, ref = history(S, grids, k, den, kinds, outside)
    h = ref.diagram()
    S.require(len(g.inputs()) == len(h.inputs()) and len(g.outputs()) == len(h.outputs()), 'inputs or outputs')
    S.same_upto(S.gmap(g), S.gmap(h), 'the pattern')
    S.witness('ok')


def h_line(S, n, den):
    """measuring along a line, with corrections, is a sequence of J gates whatever the outcomes"""
    g = mbqc.cluster_state(1, n, inputs=[(0, 0)])
    gates = []
    x = z = 0
    for i in range(n - 1):
        a = S.phase('a%d' % i, den)
        s = S.choose('s%d' % i, (0, 1))
        ang = (-a if x else a) + z
        mbqc.measure(g, (0, i), VT.Z, ang + s)
        # outcome s: the rest is X^s J(a)
        gates += [a]
        x, z = s, x
    mbqc.apply_pauli(g, (0, n - 1), VT.X, x)
    mbqc.apply_pauli(g, (0, n - 1), VT.Z, z)
    c = zx.Circuit(1)
    for a in gates:
        c.add_gate('ZPhase', 0, phase=a)
        c.add_gate('HAD', 0)
    S.same_upto(S.gmap(g), S.cmap(c.gates, 1), 'a line of measurements')
    S.witness('ok')


def h_values(S):
    """the ways of giving phases"""
    g = mbqc.cluster_state(1, 2)
    p = S.choose('p', (0, 1, 0.5, Fraction(3, 4), 0.25, 3))
    t = S.choose('t', (VT.Z, VT.X))
    i = S.choose('i', (0, 1))
    dflt = S.flag('default')
    if dflt:
        mbqc.measure(g, (0, i))
        t, p = VT.Z, 0
    else:
        mbqc.measure(g, (0, i), t, p)
    ref = Ref(1, 2, [])
    ref.put((0, i), t, Fraction(p))
    ref.gone.add((0, i))
    S.same_upto(S.gmap(g), S.gmap(ref.diagram()), 'phase values')
    before = snap(g)
    bad = S.choose('bad', ('poly', 'half', 'two'))
    j = 1 - i
    try:
        if bad == 'poly':
            from pyzx.symbolic import new_var
            mbqc.measure(g, (0, j), t, new_var('a', False))
        else:
            mbqc.apply_pauli(g, (0, j), t, Fraction(1, 2) if bad == 'half' else 2)
        S.require(False, 'an impossible phase is accepted')
    except ValueError:
        pass
    S.require(snap(g) == before, 'a refused operation changes the diagram')
    S.witness('ok')


def harnesses(tier):
    th = tier == 'thorough'
    H = []

    def add(name, fn, what, bounds, wit=('ok',), **params):
        H.append(Harness(name, fn, what, bounds, params, witnesses=wit))

    add('small', h_history, 'cluster_state, measure, apply_pauli', 'one qubit; 3 operations', ('ok', 'refused'), grids=[(1, 1)] + ([(1, 2), (2, 1), (1, 3)] if th else []), k=3 if not th else 4, outside=th)
    add('row', h_history, 'cluster_state, measure, apply_pauli', 'grids 1x1, 1x2, 2x1, 1x3; 2 operations at any place, also missing ones', ('ok', 'refused'), grids=[(1, 1), (1, 2), (2, 1), (1, 3)], k=2, outside=True)
    add('corrections', h_history, 'cluster_state, measure, apply_pauli', 'one or two qubits; 5 corrections, any Paulis', grids=[(1, 1), (2, 1)] if not th else [(1, 1), (2, 1), (1, 3)], k=5, kinds=('pauli',))
    add('grid', h_history, 'cluster_state, measure, apply_pauli', 'grids 2x2, 2x3; two operations', grids=[(2, 2), (2, 3)] + ([(3, 2)] if th else []), k=2 if not th else 3)
    add('line', h_line, 'measure, apply_pauli', 'lines of 4 qubits, all angles and outcomes', n=4 if not th else 5, den=4)
    add('values', h_values, 'measure, apply_pauli', 'phases of all types as int, float and Fraction, defaults and refusals')
    return H
