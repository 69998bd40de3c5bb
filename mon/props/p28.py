"""P28: evaluations do not influence each other."""
import random
import sys
import threading
import time

from mon import gen, special
from mon.core import REPO_SRC
from mon.props import p04

import fock_state_circuit as fsc

ID = 'P28'
CASES = {'quick': 900, 'thorough': 30000}
RULE = 'distinct by kinds, shapes and nodes of the circuits run together and the way they were run; non-trivial if at least two circuits with different nodes took part'
REQUIRED_EVENTS = ['piece_by_piece', 'in_threads', 'shared_circuit', 'shared_input', 'nested', 'failed_halfway', 'failed_request', 'near_twins', 'same_shape', 'thread_switches', 'results_compared',
                   'spectral', 'pr', 'hamiltonian', 'basic', 'bridge', 'sampled_histograms', 'built_in_between']
MIN_DISTINCT = 60
ASSUMPTIONS = ['every evaluation is compared, bit by bit, with the same evaluation done alone with objects of its own', 'drawing is not done in threads (matplotlib)']


class Halfway(Exception):
    pass


def twin(rng, sp, ops):
    """The same circuit with slightly different numbers, or with another notation or threshold."""
    new = [dict(o) for o in ops]
    sp = dict(sp)
    for o in new:
        for k in ('theta', 'phi', 'delay', 'width'):
            if isinstance(o.get(k), float) and rng.random() < 0.7:
                o[k] += rng.choice([1e-3, 1e-2, 0.1])
    k = rng.randrange(4)
    if k == 0:
        sp['left'] = not sp['left']
    elif k == 1:
        sp['full'] = not sp['full']
    return sp, new


class Program:
    def __init__(self, rng, spec):
        self.kind, self.sp, self.ops, self.states = spec
        self.pieces = rng.random() < 0.5
        self.next = None
        if self.kind == 'bridge':
            self.next = rng.choice([('half_wave_plate_225',), ('mix_50_50',), ('swap',)])

    def circuit(self):
        c, self.groups = p04.build(self.sp, self.ops)
        if self.next:
            d = gen.circuit(self.sp)
            for k in self.next:
                gen.add_op(d, dict(kind=k, a=0, b=1))
            c.bridge(d)
        return c

    def input(self, c):
        return gen.collection(c, self.sp, self.states)

    def steps(self, c, col):
        """The evaluation, as a generator of intermediate collections."""
        if self.pieces and not self.next:
            for i in range(len(c.node_list)):
                col = c.evaluate_circuit(col, [i])
                yield col
        else:
            yield c.evaluate_circuit(col)

    def run(self, c, col):
        out = col
        for out in self.steps(c, col):
            pass
        return self.result(out)

    def result(self, out):
        return tuple(sorted(x[1:] for x in gen.fingerprint(out)))     # identifiers may be drawn at random

    def text(self):
        return '%s %s on %s in %s' % (self.kind, self.ops, [(s.initial, s.weight, gen.show(s.amps), s.classical) for s in self.states], self.sp)


def programs(rng, idx):
    out = []
    for i in range(rng.choice([2, 2, 3])):
        if out and rng.random() < 0.5:
            first = out[0]
            sp, ops = twin(rng, first.sp, first.ops)
            out.append(Program(rng, (first.kind, sp, ops, first.states)))
            out[-1].is_twin = True
        else:
            out.append(Program(rng, p04.program(rng, idx + i * rng.randrange(7))))
            out[-1].is_twin = False
    return out


def disturbance(rng, mon, p, c, col):
    """Something that fails in the middle, with the circuit or the input of somebody else."""
    k = rng.randrange(3)
    if k == 0:
        def stop(*a):
            raise Halfway()
        d, _ = p04.build(p.sp, p.ops[:1])
        if rng.random() < 0.5 and p.sp['ncl']:
            d.classical_channel_function(stop, affected_channels=[0], new_input_values=[1])
        else:
            d.generic_function_on_collection(stop)
        d.half_wave_plate_225(0, 1)
        try:
            d.evaluate_circuit(col)
        except Halfway:
            mon.event('failed_halfway')
    elif k == 1:
        for bad in (lambda: c.half_wave_plate_225(0, 99), lambda: c.evaluate_circuit(col, [len(c.node_list) + 5]), lambda: col.reduce([0, 99])):
            try:
                if bad is not None:
                    n = len(c.node_list)
                    bad()
                    if len(c.node_list) != n:
                        c.node_list.pop()
            except Exception:
                mon.event('failed_request')
    else:
        other = fsc.FockStateCircuit(length_of_fock_state=3, no_of_optical_channels=2, no_of_classical_channels=1)
        other.half_wave_plate_225(0, 1)
        other.evaluate_circuit()
        mon.event('built_in_between')


def interleaved(rng, mon, progs, want):
    made = []
    for p in progs:
        c = p.circuit()
        made.append((p, c, p.input(c)))
    runs = [[p, c, col, p.steps(c, col), None] for p, c, col in made]
    todo = list(runs)
    while todo:
        r = rng.choice(todo)
        if rng.random() < 0.2:
            # not with the nodes of photon pairs: their collections are marked
            disturbance(rng, mon, r[0], r[1], r[2].copy())
        try:
            r[4] = next(r[3])
            mon.event('piece_by_piece')
        except StopIteration:
            todo.remove(r)
    for r, w in zip(runs, want):
        out = r[4] if r[4] is not None else r[2]
        mon.check(r[0].result(out) == w, lambda: 'run together with %s, in pieces: the result of %s differs from the one obtained alone' % ([p.text() for p in progs], r[0].text()))
        mon.event('results_compared')


def threads(rng, mon, progs, want):
    """All programs at the same time, every one of them more than once, some with a common circuit and input."""
    jobs = []
    for p, w in zip(progs, want):
        share = rng.randrange(3)
        c = p.circuit()
        col = p.input(c)
        for _ in range(rng.choice([1, 2])):
            jobs.append([p, w, c if share else None, col if share == 2 else None, None])
        if share and len(jobs) > 1:
            mon.event('shared_circuit')
            mon.event('shared_input', share == 2)
    start = threading.Barrier(len(jobs))
    old = sys.getswitchinterval()
    often = rng.choice([0, 0.02, 0.1, 0.5])
    seeds = rng.getrandbits(60)
    switches = [0]

    def delays(n):
        # hand over to another thread at random lines of the code under test
        r = random.Random(seeds + n)

        def local(frame, event, arg):
            if event == 'line' and r.random() < often:
                switches[0] += 1
                time.sleep(0)
            return local

        def trace(frame, event, arg):
            return local if frame.f_code.co_filename.startswith(REPO_SRC) else None
        return trace

    def work(n, j):
        try:
            if often:
                sys.settrace(delays(n))
            p = j[0]
            c = j[2] if j[2] is not None else p.circuit()
            col = j[3] if j[3] is not None else p.input(c)
            start.wait()
            j[4] = p.run(c, col)
        except Exception as e:
            j[4] = e
    ts = [threading.Thread(target=work, args=(n, j)) for n, j in enumerate(jobs)]
    sys.setswitchinterval(rng.choice([1e-6, 1e-5, 1e-4]))
    try:
        for t in ts:
            t.start()
        for t in ts:
            t.join()
    finally:
        sys.setswitchinterval(old)
    for j in jobs:
        if isinstance(j[4], Exception):
            mon.check(False, 'run in threads together with %s: %s raises %r' % ([p.text() for p in progs], j[0].text(), j[4]))
        mon.check(j[4] == j[1], lambda: 'run in threads together with %s: the result of %s differs from the one obtained alone' % ([p.text() for p in progs], j[0].text()))
        mon.event('results_compared')
    mon.event('in_threads')
    mon.event('thread_switches', switches[0])


def nested(rng, mon, progs, want):
    """An evaluation inside a node of another one, also of the same circuit."""
    inner, w = progs[-1], want[-1]
    p = progs[0]
    ci = inner.circuit()
    coli = inner.input(ci)
    seen = []

    def function(col, parameters=None):
        seen.append(inner.run(ci, coli))
        return col
    place = rng.randint(0, len(p.ops))
    c, _ = p04.build(p.sp, p.ops[:place])
    c.generic_function_on_collection(function)
    for o in p.ops[place:]:
        if o['kind'] == 'assign':
            return
        special.add_op(c, o)
    if p.next:
        return
    plain, _ = p04.build(p.sp, p.ops[:place])
    plain.generic_function_on_collection(lambda col, parameters=None: col)
    for o in p.ops[place:]:
        special.add_op(plain, o)
    a = p.result(plain.evaluate_circuit(p.input(plain)))
    b = p.result(c.evaluate_circuit(p.input(c)))
    mon.check(a == b, lambda: 'evaluating %s inside a node changes the result of %s' % (inner.text(), p.text()))
    mon.check(seen and all(x == w for x in seen), lambda: 'evaluated inside a node of %s: the result of %s differs from the one obtained alone' % (p.text(), inner.text()))
    mon.event('nested')
    mon.event('results_compared', 2)


def run_case(rng, mon, idx, tier):
    progs = programs(rng, idx)
    want = []
    for p in progs:
        c = p.circuit()
        want.append(p.run(c, p.input(c)))
        mon.event(p.kind)
    shapes = [(p.sp['L'], p.sp['nch'], p.sp['ncl']) for p in progs]
    mon.event('same_shape', len(set(shapes)) < len(shapes))
    mon.event('near_twins', any(p.is_twin for p in progs))
    interleaved(rng, mon, progs, want)
    if rng.random() < 0.6:
        threads(rng, mon, progs, want)
    if rng.random() < 0.4:
        nested(rng, mon, progs, want)
    # and once more alone, after all this
    for p, w in zip(progs, want):
        c = p.circuit()
        col = p.input(c)
        before = gen.fingerprint(col)
        mon.check(p.run(c, col) == w, lambda: 'repeated after others, the result of %s differs' % p.text())
        mon.check(gen.fingerprint(col) == before, lambda: 'input of %s changed' % p.text())
        mon.event('results_compared')
    p = rng.choice(progs)
    if p.kind in ('basic', 'spectral', 'hamiltonian'):
        c = p.circuit()
        h = [c.evaluate_circuit(p.input(c)).plot(histo_output_instead_of_plot=True) for _ in range(2)]
        mon.check(repr(h[0]) == repr(h[1]), lambda: 'histograms of %s differ: %s' % (p.text(), h))
        mon.event('sampled_histograms')
    if len({tuple(o['kind'] for o in p.ops) for p in progs}) > 1 or any(p.is_twin for p in progs):
        mon.nontrivial(tuple(shapes), tuple(tuple(o['kind'] for o in p.ops) for p in progs))
        mon.sample(dict(programs=[(p.kind, [o['kind'] for o in p.ops]) for p in progs]))
