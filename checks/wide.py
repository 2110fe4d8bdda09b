"""Circuits and diagrams with many qubits of which only a few are used."""
import itertools
from symx import sem
from symx.gen import VT, ET
import pyzx as zx
from checks.p05 import KINDS, sem_rename


def circuit(S, n, places, k, kinds, den=4, reg=1):
    c = zx.Circuit(n)
    for i in range(k):
        kd = S.choose('g%d' % i, kinds)
        ar, na, mk = KINDS[kd]
        q = S.choose('g%d.q' % i, list(itertools.permutations(places, ar)))
        c.add_gate(mk(list(q), [S.phase('g%d.a%d' % (i, j), den) for j in range(na)]))
    return c


def cmap(S, gates, places):
    """the map on the places; nothing may act on the others"""
    ops = sem.ops_of_gates(gates)
    pos = {q: i for i, q in enumerate(places)}
    used = set()
    for o in ops:
        used |= {o[1]} if o[0] == 'h' else {o[1], o[2]} if o[0] == 'swap' else {o[1]} | set(o[2]) if o[0] == 'x' else set(o[2])
    S.require(used <= set(places), 'a gate on the wrong qubit')
    return S.opsmap(sem_rename(ops, pos), len(places))


def gmap(S, g, places):
    """the map of a diagram on the places; the other qubits must be plain wires"""
    h = g.clone() if hasattr(g, 'clone') else g.copy()
    ins, outs = list(h.inputs()), list(h.outputs())
    S.require(len(ins) == len(outs), 'inputs and outputs')
    for q in range(len(ins)):
        if q not in places:
            n = list(h.neighbors(ins[q]))
            S.require(n == [outs[q]] and h.edge_type(h.edge(ins[q], outs[q])) == ET.SIMPLE, 'a qubit that is not used is not a plain wire')
    h.set_inputs(tuple(ins[q] for q in places))
    h.set_outputs(tuple(outs[q] for q in places))
    h.remove_vertices([ins[q] for q in range(len(ins)) if q not in places] + [outs[q] for q in range(len(ins)) if q not in places])
    return S.gmap(h)
