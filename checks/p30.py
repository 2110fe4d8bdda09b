"""P30: the command-line tools."""
import contextlib
import copy
import io
import itertools
import os
import shutil
import sys
import tempfile
from symx.run import Harness
from symx import gen
import pyzx as zx
from pyzx import scripts
from pyzx.circuit import Circuit
from pyzx.scripts import circ2circ, circ2tikz, cnot_generator, phase_poly_generator, circuit_router
from pyzx.routing.architecture import create_architecture, Architecture
from pyzx.routing.cnot_mapper import ElimMode
from .p15 import eye
from .p28 import randomness

LEVEL = 'other'
EXPLANATION = ('The real command-line tools run on circuits whose gates, qubits and angles are solver variables, handed over at the boundary of reading and writing files or through files in a scratch folder, with options that are solver variables too. '
               'The map of what is written is compared exactly with that of the source.')
ASSUMPTIONS = ['reading and writing of circuits is replaced by handing over the symbolic circuit in the larger harnesses; the formats themselves are the subject of other properties']
BUDGET = {'quick': 90, 'thorough': 900}
PARSERS = {'cnots': copy.deepcopy(cnot_generator.parser), 'phasepoly': copy.deepcopy(phase_poly_generator.parser)}
FORMATS = {'qasm': 'to_qasm', 'qc': 'to_qc', 'quipper': 'to_quipper'}


@contextlib.contextmanager
def folder():
    d = tempfile.mkdtemp(prefix='p30_')
    old = os.getcwd(), sys.argv
    try:
        with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
            yield d
    finally:
        os.chdir(old[0])
        sys.argv = old[1]
        shutil.rmtree(d, ignore_errors=True)


@contextlib.contextmanager
def handover(c, written):
    """the source file holds the circuit c; circuits turned into text are recorded"""
    old = {k: Circuit.__dict__[k] for k in ('load',) + tuple(FORMATS.values())}
    Circuit.load = staticmethod(lambda f: c.copy())

    def writer(name):
        def f(self, *a, **k):
            written.append((name, self.copy()))
            return 'text %d' % len(written)
        return f
    for k, m in FORMATS.items():
        setattr(Circuit, m, writer(k))
    try:
        yield
    finally:
        for k, v in old.items():
            setattr(Circuit, k, v)


def circ(S, n, slots, den=4):
    c = zx.Circuit(n)
    for i, ks in enumerate(slots):
        x = gen.slot(S, 'g%d' % i, n, ks, den)
        if x is not None:
            c.add_gate(x)
    return c


def call(args, front):
    if front:
        scripts.main(['pyzx', 'opt'] + args)
    else:
        circ2circ.main(args)


def h_opt(S, n, slots, methods, phasepoly=(False, True), den=4, options=False):
    """the optimiser, with the circuit handed over"""
    c = circ(S, n, slots, den)
    m, pp = S.choose('method', methods), S.choose('phasepoly', phasepoly)
    src = S.choose('src', ('a.qasm', 'a.qc')) if options else 'a.qc'
    fmt = S.choose('fmt', ('match', 'quipper')) if options else 'match'
    want = src[2:] if fmt == 'match' else fmt
    dest = S.choose('dest', ('', 'b.txt')) if options else 'b.txt'
    with folder() as d:
        p = os.path.join(d, src)
        with open(p, 'w') as f:
            f.write('source')
        args = [p] + ([] if m is None else ['-g', m]) + (['-p'] if pp else []) + ([] if fmt == 'match' else ['-t', fmt]) + (['-d', os.path.join(d, dest)] if dest else [])
        written = []
        with handover(c, written):
            call(args, False)
        out = dest or 'a.' + want
        S.require(sorted(os.listdir(d)) == sorted({src, out}), 'files')
        S.require(len(written) == 1 and written[0][0] == want, 'the format asked for')
        S.require(open(os.path.join(d, out)).read() == 'text 1' and (out == src or open(p).read() == 'source'), 'what is written')
    c2 = written[0][1]
    S.require(c2.qubits == n, 'number of qubits')
    S.same_uptophase(S.cmap(c2.gates, n), S.cmap(c.gates, n), 'the optimised circuit')
    S.witness('%s%s' % (m, ' -p' if pp else ''))


def h_files(S, slots):
    """the optimiser on real files"""
    c = circ(S, 2, slots)
    fi, fo = S.choose('in', tuple(FORMATS)), S.choose('out', tuple(FORMATS) + ('match',))
    m = S.choose('method', ('full', 'tele'))
    v = S.flag('verbose')
    with folder() as d:
        p = os.path.join(d, S.choose('dot', ('a', 'a.b')) + '.' + fi)
        with open(p, 'w') as f:
            f.write(getattr(c, FORMATS[fi])())
        call([p, '-g', m] + ([] if fo == 'match' else ['-t', fo]) + (['-v'] if v else []), S.flag('front'))
        k = fi if fo == 'match' else fo
        q = os.path.splitext(p)[0] + '.' + k
        S.require(os.path.exists(q) and set(os.listdir(d)) == {os.path.basename(p), os.path.basename(q)}, 'files')
        c2 = zx.Circuit.load(q)
    S.require(c2.qubits == 2, 'number of qubits')
    S.same_uptophase(S.cmap(c2.gates, 2), S.cmap(c.gates, 2), 'the optimised circuit')
    S.witness(k)


def h_none(S):
    """calls that cannot work write nothing"""
    with folder() as d:
        p = os.path.join(d, 'a.qasm')
        how = S.choose('how', ('missing', 'format', 'command'))
        if how != 'missing':
            with open(p, 'w') as f:
                f.write(zx.Circuit(1).to_qasm())
        before = sorted(os.listdir(d))
        try:
            if how == 'command':
                scripts.main(['pyzx', S.choose('c', ('optimise', 'x'))])
            else:
                call([p] + (['-t', 'tex'] if how == 'format' else []), S.flag('front'))
            S.require(how != 'command', 'an unknown command is accepted')
        except SystemExit:
            pass
        S.require(sorted(os.listdir(d)) == before, 'a file is written')
    S.witness(how)


def h_tikz(S, slots):
    c = circ(S, 2, slots)
    with folder() as d:
        p = os.path.join(d, 'a.qasm')
        with open(p, 'w') as f:
            f.write(c.to_qasm())
        dest = S.choose('dest', (None, 'b.txt'))
        args = [p] + ([os.path.join(d, dest)] if dest else [])
        if S.flag('front'):
            scripts.main(['pyzx', 'tikz'] + args)
        else:
            circ2tikz.main(args)
        q = os.path.join(d, dest or 'a.tikz')
        S.require(sorted(os.listdir(d)) == sorted(['a.qasm', os.path.basename(q)]), 'files')
        g = zx.tikz.tikz_to_graph(open(q).read())
    g.auto_detect_io()
    S.require(len(g.inputs()) == len(g.outputs()) == 2, 'inputs and outputs')
    S.same_upto(S.gmap(g), S.cmap(c.gates, 2), 'the picture')
    S.witness('ok')


def h_generate(S, which):
    """the tools that write random circuits"""
    q, k = S.choose('q', (2, 3)), S.choose('k', (1, 2))
    maps = S.choose('maps', (1, 2)) if q == 2 else 1
    front = S.flag('front')
    both = q == 2 and maps == 1 and S.flag('both')
    with folder() as d:
        out = os.path.join(d, 'new', 'out')
        args = [out, '-q', str(q), '-m', str(maps), '-d' if which == 'cnots' else '-p', str(k)] + (['0'] if both else [])
        # the shell's own arguments
        sys.argv = ['pyzx', which] + args
        mod = cnot_generator if which == 'cnots' else phase_poly_generator
        # a process calls the tool once
        mod.parser = copy.deepcopy(PARSERS[which])
        if which == 'cnots':
            with randomness(S):
                scripts.main(sys.argv) if front else mod.main(args)
        else:
            import numpy
            G = zx.generate
            old, cnt = G.np, [0]

            class R:
                @staticmethod
                def choice(a, replace=True, size=None):
                    c = []
                    for i in range(size):
                        cnt[0] += 1
                        c.append(S.choose('c%d' % cnt[0], range(a)))
                    S.assume(len(set(c)) == size)
                    return numpy.array(c, dtype=int)

            class NP:
                random = R
            G.np = NP()
            try:
                scripts.main(sys.argv) if front else mod.main(args)
            finally:
                G.np = old
        for kk in [k] + ([0] if both else []):
            f = os.path.join(out, '%dqubits' % q, str(kk) if which == 'cnots' else '%dgadgets' % kk)
            S.require(sorted(os.listdir(f)) == ['Original%d.qasm' % i for i in range(maps)], 'the files asked for')
            for n in os.listdir(f):
                c = zx.Circuit.load(os.path.join(f, n))
                S.require(c.qubits == q, 'number of qubits')
                names = [type(x).__name__ for x in c.gates]
                if which == 'cnots':
                    S.require(names == ['CNOT'] * kk, 'CNOT circuits')
                else:
                    S.require(set(names) <= {'CNOT', 'ZPhase', 'T'} and len(names) - names.count('CNOT') == kk, 'circuits of phase gadgets')
        S.require(sorted(os.listdir(os.path.join(out, '%dqubits' % q))) == sorted([str(x) if which == 'cnots' else '%dgadgets' % x for x in {k} | ({0} if both else set())]), 'folders')
    S.witness('ok')


def h_router(S, n, k, arch):
    """mapping a file of CNOTs"""
    c = circ(S, n, [('cnot',)] * k)
    mode = S.choose('mode', (ElimMode.STEINER_MODE, ElimMode.GAUSS_MODE))
    a = create_architecture(arch, n_qubits=n)
    with folder() as d:
        p, q = os.path.join(d, 'a.qasm'), os.path.join(d, 'b.qasm')
        with open(p, 'w') as f:
            f.write(c.to_qasm())
        r = circuit_router.map_cnot_circuit(p, a, mode, dest_file=q)
        w = zx.Circuit.load(q)
    S.require([(x.control, x.target) for x in r.gates] == [(x.control, x.target) for x in w.gates], 'the file is not the circuit')
    S.require(all(type(x).__name__ == 'CNOT' for x in r.gates), 'kinds of gates')
    e = {frozenset(x) for x in create_architecture(arch, n_qubits=n).graph.edges()}
    if mode == ElimMode.STEINER_MODE:
        S.require(all(frozenset((x.control, x.target)) in e for x in r.gates), 'a CNOT between qubits that are not coupled')
    S.same(S.cmap(w.gates, n), S.cmap(c.gates, n), 'the mapped circuit')
    S.witness(str(mode))


def harnesses(tier):
    th = tier == 'thorough'
    H = []

    def add(name, fn, what, bounds, wit=('ok',), **params):
        H.append(Harness(name, fn, what, bounds, params, witnesses=wit))

    A = (None, 'h', 'z', 'cnot')
    add('options', h_opt, 'pyzx opt', '2 gates on 2 qubits, all methods, formats and places', ('None', 'cliff', 'tele -p'), n=2, slots=[('cnot', 'h'), ('z',)], methods=(None, 'full', 'cliff', 'tele'), options=True)
    add('opt1', h_opt, 'pyzx opt', '1 qubit, 3 gates, all methods', ('None', 'cliff', 'tele -p', 'full -p'), n=1, slots=[(None, 'h', 'z'), ('z', 'x'), (None, 'h', 'z')] + [(None, 'h', 'x')] * th, methods=(None, 'full', 'cliff', 'tele'))
    add('opt2', h_opt, 'pyzx opt', '2 qubits, 3 gates, all methods', ('None', 'cliff', 'tele -p'), n=2, slots=[A, ('cnot', 'cz'), ('z', 'h', 'swap')] + ([A] if th else []), methods=(None, 'cliff', 'tele'))
    add('opt3', h_opt, 'pyzx opt', 'Toffoli and CCZ gates and a phase on 3 qubits', ('None', 'tele -p'), n=3, slots=[(None, 'z'), ('tof', 'ccz')], methods=(None, 'tele'))
    add('files', h_files, 'pyzx opt', '2 gates on 2 qubits, all formats', tuple(FORMATS), slots=[('cnot', 'h'), ('T', 'cz')])
    add('none', h_none, 'pyzx', 'missing files, unknown formats and commands', ('missing', 'format', 'command'))
    add('tikz', h_tikz, 'pyzx tikz', '3 gates on 2 qubits', slots=[('cnot', 'h'), ('T', 'cz', 'swap'), ('h', 'cnot')])
    add('cnots', h_generate, 'pyzx cnots', '2-3 qubits, up to 2 CNOTs and 2 maps', which='cnots')
    add('phasepoly', h_generate, 'pyzx phasepoly', '2-3 qubits, up to 2 gadgets and 2 maps', which='phasepoly')
    add('map3', h_router, 'map_cnot_circuit', '3 CNOTs on a line of 3 qubits', (str(ElimMode.STEINER_MODE),), n=3, k=3, arch='line')
    add('map4', h_router, 'map_cnot_circuit', '2 CNOTs on a square of 4 qubits', (str(ElimMode.STEINER_MODE),), n=4, k=2, arch='square')
    return H
