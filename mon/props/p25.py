"""P25: a circuit is independent of the objects it was built from."""
import copy
import random

import numpy as np

from mon import gen, ref, special
from mon.props import p15

import fock_state_circuit as fsc

ID = 'P25'
CASES = {'quick': 2500, 'thorough': 60000}
RULE = 'distinct by circuit shape, calls and how the arguments were re-used; non-trivial if an object handed to the circuit was changed afterwards'
REQUIRED_EVENTS = ['arguments_unchanged', 'changed_after_building', 'list_reused_for_several_nodes', 'list_shared_by_several_circuits', 'array_changed', 'node_info_given',
                   'circuits_compared', 'evaluated_twice', 'list_emptied', 'compound_circuits', 'compound_parts_grown', 'call:custom_optical_node', 'call:custom_fock_state_node', 'call:shift',
                   'call:shift_direct', 'call:c_shift', 'call:c_shift_direct', 'call:channel_coupling', 'call:measure_optical_to_classical', 'call:set_classical_channels',
                   'call:classical_channel_function', 'call:polarizing_beamsplitter', 'call:non_polarizing_beamsplitter', 'call:non_polarizing_50_50_beamsplitter',
                   'call:time_delay', 'call:time_delay_full', 'call:time_delay_classical_control', 'call:time_delay_classical_control_full', 'call:set_pulse_width',
                   'call:hamiltonian_operator_gate', 'call:popescu_rohrlich_correlation_gate', 'call:half_wave_plate', 'circuit_arguments_left_out'] + ['left_out:' + n for n in (
                       'mix_50_50', 'swap', 'wave_plate', 'phase_shift_single_channel', 'measure_optical_to_classical', 'shift', 'c_shift', 'channel_coupling', 'time_delay_full', 'polarizing_beamsplitter')]
MIN_DISTINCT = 30
ASSUMPTIONS = ['the parameters for a generic function belong to that function', 'outcomes compared with a circuit built from fresh arguments, tolerance 1e-6']


def plus_one(current, new_values, affected):
    out = list(current)
    for c, v in zip(affected, new_values):
        out[c] = v + 1
    return out


def ordinary(rng, sp):
    """One call with its keyword arguments."""
    n, k, L = sp['nch'], sp['ncl'], sp['L']
    while True:
        name = rng.choice(['custom_optical_node', 'custom_fock_state_node', 'shift', 'shift_direct', 'shift_direct', 'c_shift', 'c_shift_direct', 'c_shift_direct', 'channel_coupling',
                           'measure_optical_to_classical', 'measure_optical_to_classical', 'set_classical_channels', 'classical_channel_function',
                           'polarizing_beamsplitter', 'non_polarizing_beamsplitter', 'non_polarizing_50_50_beamsplitter', 'hamiltonian_operator_gate', 'half_wave_plate'])
        if 'beamsplitter' in name and n < 4:
            continue
        break
    m = rng.randint(1, min(n, 2))
    if name == 'custom_optical_node':
        return name, dict(matrix_optical=np.array(gen.random_unitary2(rng), dtype=np.cdouble), optical_channels=rng.sample(range(n), 2))
    if name == 'custom_fock_state_node':
        return name, dict(custom_fock_matrix=np.array(gen.random_unitary(rng, L ** n), dtype=np.cdouble))
    if name in ('shift', 'shift_direct'):
        return name, dict(target_channels=rng.sample(range(n), m), shift_per_channel=[rng.randint(0, L) for _ in range(m)])
    if name in ('c_shift', 'c_shift_direct', 'channel_coupling'):
        pairs = [rng.sample(range(n), 2) for _ in range(m if name != 'channel_coupling' else 1)]
        d = dict(control_channels=[p[0] for p in pairs], target_channels=[p[1] for p in pairs])
        return name, dict(d, coupling_strength=0.5) if name == 'channel_coupling' else d
    if name == 'measure_optical_to_classical':
        m = min(m, k)
        return name, dict(optical_channels_to_be_measured=rng.sample(range(n), m), classical_channels_to_be_written=rng.sample(range(k), m))
    if name in ('set_classical_channels', 'classical_channel_function'):
        m = rng.randint(1, k)
        ch, v = rng.sample(range(k), m), [rng.randint(0, 5) for _ in range(m)]
        if name == 'set_classical_channels':
            return name, dict(list_of_values_for_classical_channels=v, list_of_classical_channel_numbers=ch)
        return name, dict(function=plus_one, affected_channels=ch, new_input_values=v)
    if 'beamsplitter' in name:
        ch = rng.sample(range(n), 4)
        d = dict(input_channels_a=ch[:2], input_channels_b=ch[2:])
        return name, dict(d, reflection=0.25, transmission=0.75) if name == 'non_polarizing_beamsplitter' else d
    if name == 'hamiltonian_operator_gate':
        c = rng.randint(1, 2)
        hams = [p15.spell(rng, p15.terms(rng, QUIET, 'number' if c == 1 else 'exchange', c), c, False) for _ in range(rng.randint(1, 2))]
        return name, dict(channels=rng.sample(range(n), c), operators=hams)
    a, b = rng.sample(range(n), 2)
    return name, dict(channel_horizontal=a, channel_vertical=b, angle=rng.uniform(0, 3))


def delayed(rng, sp):
    name = rng.choice(['time_delay', 'time_delay_full', 'time_delay_classical_control', 'time_delay_classical_control_full', 'set_pulse_width'])
    ch = rng.sample(range(sp['nch']), rng.randint(1, sp['nch'] - 1))
    if name == 'set_pulse_width':
        return [(name, dict(affected_channels=ch, pulse_width=rng.uniform(0.4, 2))), ('time_delay_full', dict(affected_channels=list(ch), delay=0.7, pulse_width=None))]
    d = dict(affected_channels=ch, pulse_width=1.0)
    if 'classical' in name:
        d['classical_channel_for_delay'] = sp['ncl'] - 1
    else:
        d['delay'] = rng.uniform(0.3, 2)
    return [(name, d)]


def program(rng, sp, kind):
    n = sp['nch']
    if kind == 'pairs':
        ch = rng.sample(range(n), 4)
        gate = ('popescu_rohrlich_correlation_gate', dict(pr_correlation=[{'channels_Ah_Av_Bh_Bv': ch, 'quantumness_indicator': rng.choice([1, 2, 0.5, 3])}]))
        plates = [('half_wave_plate', dict(channel_horizontal=ch[i], channel_vertical=ch[i + 1], angle=rng.uniform(0, 3))) for i in (0, 2)]
        order = rng.sample(range(n), n)
        return [gate] + plates + [('measure_optical_to_classical', dict(optical_channels_to_be_measured=order, classical_channels_to_be_written=list(order)))]
    if kind == 'delays':
        calls = delayed(rng, sp)
        for _ in range(rng.randint(1, 2)):
            a, b = rng.sample(range(n), 2)
            calls.append(('half_wave_plate', dict(channel_horizontal=a, channel_vertical=b, angle=rng.uniform(0.2, 1.3))))
        order = rng.sample(range(n), n)
        return calls + [('measure_optical_to_classical', dict(optical_channels_to_be_measured=order, classical_channels_to_be_written=list(order)))]
    return [ordinary(rng, sp) for _ in range(rng.randint(1, 5))]


def spoil(rng, x, mon):
    """Change an object in place."""
    if isinstance(x, np.ndarray):
        x[...] = np.eye(len(x)) if rng.random() < 0.5 else x[::-1].copy()
        mon.event('array_changed')
    elif isinstance(x, dict):
        for k in list(x):
            if isinstance(x[k], (list, dict)):
                spoil(rng, x[k], mon)
            else:
                x[k] = 'changed' if isinstance(x[k], str) else 0.123
        if rng.random() < 0.3:
            x.clear()
    elif isinstance(x, list):
        k = rng.randrange(5)
        if k == 0:
            x.clear()
            mon.event('list_emptied')
        elif k == 1:
            x.reverse()
            for i, v in enumerate(x):
                if isinstance(v, int):
                    x[i] = v + 1 if v == 0 else v - 1
        elif k == 2 and x:
            x.append(copy.deepcopy(x[0]))
        elif k == 3 and x:
            x.pop()
        else:
            for i, v in enumerate(x):
                if isinstance(v, (list, dict)):
                    spoil(rng, v, mon)
                else:
                    x[i] = 0
    return x


def same(a, b):
    if isinstance(a, np.ndarray):
        return isinstance(b, np.ndarray) and np.array_equal(a, b)
    if isinstance(a, dict):
        return set(a) == set(b) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, list):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, fsc.Hamiltonian):
        return a.operators == b.operators and a.operator_channels == b.operator_channels
    return a == b


def info(rng):
    if rng.random() < 0.7:
        return None
    return {'label': 'own', 'markers': ['o'], 'markercolor': ['green'], 'marker_text': ['x'], 'markersize': 12, 'fillstyle': 'full'}


def outcome(c, sp, kind, states, mon):
    random.seed(5)
    np.random.seed(5)
    col = gen.collection(c, sp, states)
    r = c.evaluate_circuit(col)
    if kind == 'delays':      # photons resolved in time and channel
        return sorted((ini, o['output_state'], o['probability']) for ini, lst in
                      r.plot(classical_channels=list(range(sp['nch'])), histo_output_instead_of_plot=True).items() for o in lst)
    return sorted((s.initial, s.weight, tuple(map(float, s.classical)), tuple((o, a.real, a.imag) for o, a in sorted(s.amps.items())),
                   tuple((tuple(map(float, v)), p) for v, p in s.history)) for s in gen.observe(r, sp, mon))


def agree(a, b):
    if isinstance(a, (tuple, list)):
        return isinstance(b, (tuple, list)) and len(a) == len(b) and all(agree(x, y) for x, y in zip(a, b))
    if isinstance(a, float):
        return isinstance(b, (int, float)) and abs(a - b) <= 1e-6
    return a == b


O, C, F, P0, P1 = 'optical', 'classical', 'number', 'pair a', 'pair b'
LEFT_OUT = {      # arguments and what they mean when left out
    'mix_50_50': dict(first_channel=(O, 0), second_channel=(O, 1)),
    'swap': dict(first_channel=(O, 0), second_channel=(O, 1)),
    'mix_generic_refl_transm': dict(first_channel=(O, 0), second_channel=(O, 1), reflection=(F, 0), transmission=(F, 1)),
    'phase_shift_single_channel': dict(channel_for_shift=(O, 0), phase_shift=(F, 0)),
    'phase_shift_single_channel_classical_control': dict(optical_channel_to_shift=(O, 0), classical_channel_for_phase_shift=(C, 0)),
    'half_wave_plate': dict(channel_horizontal=(O, 0), channel_vertical=(O, 1), angle=(F, 0)),
    'quarter_wave_plate': dict(channel_horizontal=(O, 0), channel_vertical=(O, 1), angle=(F, 0)),
    'wave_plate': dict(channel_horizontal=(O, 0), channel_vertical=(O, 1), theta=(F, 0), phi=(F, 0)),
    'wave_plate_classical_control': dict(optical_channel_horizontal=(O, 0), optical_channel_vertical=(O, 1), classical_channel_for_orientation=(C, 0), classical_channel_for_phase_shift=(C, 0)),
    'wave_plate_from_hamiltonian': dict(channel_horizontal=(O, 0), channel_vertical=(O, 1), theta=(F, 0), phi=(F, 0)),
    'wave_plate_from_hamiltonian_classical_control': dict(optical_channel_horizontal=(O, 0), optical_channel_vertical=(O, 1), classical_channel_for_orientation=(C, 0), classical_channel_for_phase_shift=(C, 0)),
    'polarizing_beamsplitter': dict(input_channels_a=(P0, (0, 1)), input_channels_b=(P1, (2, 3))),
    'non_polarizing_50_50_beamsplitter': dict(input_channels_a=(P0, (0, 1)), input_channels_b=(P1, (2, 3))),
    'non_polarizing_beamsplitter': dict(input_channels_a=(P0, (0, 1)), input_channels_b=(P1, (2, 3)), reflection=(F, 0), transmission=(F, 1)),
    'shift': dict(target_channels=([O], [1]), shift_per_channel=([F], [0])),
    'shift_direct': dict(target_channels=([O], [1]), shift_per_channel=([F], [0])),
    'c_shift': dict(control_channels=([O], [0]), target_channels=([O], [1])),
    'c_shift_direct': dict(control_channels=([O], [0]), target_channels=([O], [1])),
    'channel_coupling': dict(control_channels=([O], [0]), target_channels=([O], [1]), coupling_strength=(F, 0)),
    'measure_optical_to_classical': dict(optical_channels_to_be_measured=([O], [0]), classical_channels_to_be_written=([C], [0])),
    'time_delay_full': dict(delay=(F, 0), pulse_width=(F, 1)),
    'time_delay_classical_control_full': dict(classical_channel_for_delay=(C, 0), pulse_width=(F, 1)),
}
for _n in ('half_wave_plate_225', 'half_wave_plate_45', 'quarter_wave_plate_225', 'quarter_wave_plate_45'):
    LEFT_OUT[_n] = dict(channel_horizontal=(O, 0), channel_vertical=(O, 1))


def value(rng, kind, sp):
    if isinstance(kind, list):
        return [value(rng, kind[0], sp)]
    if kind == F:
        return rng.choice([0, 1, 0.5])
    if kind in (P0, P1):
        return tuple(rng.sample(range(sp['nch']), 2))
    return rng.randrange(sp['nch'] if kind == O else sp['ncl'])


def left_out(rng, mon):
    """Arguments left out mean the same as their documented values, also in later calls."""
    delays = rng.random() < 0.2
    sp = gen.spec(rng, max_dim=81, lengths=(2, 3), channels=(4, 5) if rng.random() < 0.5 else (2, 3, 4), ncl=(1, 3))
    if delays:
        sp = dict(sp, L=3, nch=rng.choice([2, 3]))
        sp['ncl'] = sp['nch'] + 1
    states = special.low_states(rng, sp, 2) if delays else gen.rstates(rng, sp, weights=True)
    subject, reference, calls = gen.circuit(sp), gen.circuit(sp), []
    if rng.random() < 0.3:       # arguments of the circuit
        full = dict(length_of_fock_state=2, no_of_optical_channels=2, no_of_classical_channels=0, channel_0_left_in_state_name=True,
                    threshold_probability_for_setting_to_zero=0.0001, use_full_fock_matrix=False)
        given = {k: v for k, v in dict(length_of_fock_state=sp['L'], no_of_optical_channels=sp['nch'], no_of_classical_channels=sp['ncl'], channel_0_left_in_state_name=sp['left'],
                                       use_full_fock_matrix=sp['full']).items() if rng.random() < 0.5}
        full.update(given)
        subject, reference = fsc.FockStateCircuit(**given), fsc.FockStateCircuit(**full)
        sp = dict(L=full['length_of_fock_state'], nch=full['no_of_optical_channels'], ncl=full['no_of_classical_channels'], left=full['channel_0_left_in_state_name'],
                  full=full['use_full_fock_matrix'], thr=full['threshold_probability_for_setting_to_zero'])
        states = special.low_states(rng, sp, 2) if delays else gen.rstates(rng, sp, weights=True)
        calls.append(('circuit', sorted(given)))
        mon.event('circuit_arguments_left_out')
        th = rng.choice([0.003, 0.006, 0.01, 0.05])      # components around the threshold
        for c in (subject, reference):
            c.wave_plate(0, 1, th, np.pi)
    for _ in range(rng.randrange(1, 4)):
        name = rng.choice([n for n in LEFT_OUT if ('full' in n) == (delays and rng.random() < 0.5)])
        table = LEFT_OUT[name]
        if 'beamsplitter' in name and sp['nch'] < 4 or sp['ncl'] == 0 and any(k in (C, [C]) for k, _ in table.values()) or delays and 'measure' in name:
            continue
        for _ in range(30):
            gone = {k for k in table if rng.random() < 0.6} or {rng.choice(list(table))}
            args = {k: d if k in gone else value(rng, t, sp) for k, (t, d) in table.items()}
            used = [x for k, (t, _) in table.items() if t in (O, [O], P0, P1) for x in (args[k] if isinstance(args[k], (list, tuple)) else [args[k]])]
            if len(set(used)) == len(used) and all(x < sp['nch'] for x in used):
                break
        else:
            continue
        if any(isinstance(v, list) and k not in gone for k, v in args.items()) and 'shift' in name and 'shift_per_channel' in args:
            args['shift_per_channel'] = [int(v) for v in args['shift_per_channel']]
        if 'reflection' in args and 'transmission' not in gone:
            args['reflection'] = 0 if 'reflection' in gone else rng.choice([0, 0.3, 1])
            args['transmission'] = 1 - args['reflection']
        elif 'reflection' in args:
            args['reflection'] = 0
        if 'full' in name:
            args['affected_channels'] = [rng.randrange(sp['nch'])]
        getattr(subject, name)(**{k: copy.deepcopy(v) for k, v in args.items() if k not in gone})
        getattr(reference, name)(**copy.deepcopy(args))
        calls.append((name, sorted(gone)))
        mon.event('left_out:' + name)
    kind = 'delays' if delays else 'ordinary'
    if delays and sp['ncl'] < sp['nch']:
        return
    what = 'arguments left out in %s on %s' % (calls, sp)
    got, want = outcome(subject, sp, kind, states, mon), outcome(reference, sp, kind, states, mon)
    mon.check(agree(got, want), lambda: '%s: %s, expected %s' % (what, got[:6], want[:6]))
    mon.nontrivial(sp, 'left out', calls)


def run_case(rng, mon, idx, tier):
    if idx % 6 == 5:
        return left_out(rng, mon)
    kind = rng.choice(['ordinary'] * 4 + ['delays', 'pairs'])
    if kind == 'pairs':
        sp = dict(L=2, nch=rng.choice([4, 4, 5]), left=rng.random() < 0.7, full=False, thr=1e-12)
        sp['ncl'] = sp['nch']
        states = [ref.RState({(0,) * sp['nch']: 1}, [0] * sp['ncl'], 1.0, [], 'vacuum')]
    elif kind == 'delays':
        sp = gen.spec(rng, max_dim=81, lengths=(3,), channels=(2, 3), ncl=(0, 0))
        sp['ncl'] = sp['nch'] + 1
        states = special.low_states(rng, sp, 2)
    else:
        sp = gen.spec(rng, max_dim=81, lengths=(2, 3, 4), channels=(2, 3, 4), ncl=(1, 3))
        states = gen.rstates(rng, sp, weights=True)
    calls = program(rng, sp, kind)
    infos = [info(rng) for _ in calls]
    pristine = copy.deepcopy((calls, infos))
    what = 'calls %s with information %s on %s' % (pristine[0], [bool(i) for i in infos], sp)

    reference = gen.circuit(sp)
    for (name, kwargs), inf in zip(*copy.deepcopy(pristine)):
        getattr(reference, name)(**kwargs, **({'node_info': inf} if inf is not None else {}))
    want = outcome(reference, sp, kind, states, mon)

    # the same circuit, built from objects which the caller goes on using
    reuse = rng.random() < 0.5
    subject, pool, handed = gen.circuit(sp), [], []
    second = gen.circuit(sp) if rng.random() < 0.3 else None
    for (name, kwargs), inf in zip(calls, infos):
        mon.event('call:' + name)
        if reuse:
            taken = set()
            for key, v in kwargs.items():
                if isinstance(v, list) and v and all(isinstance(x, int) for x in v):
                    old = next((p for p in pool if id(p) not in taken), None)
                    if old is not None:
                        old[:] = v
                        kwargs[key] = v = old
                        mon.event('list_reused_for_several_nodes')
                    else:
                        pool.append(v)
                    taken.add(id(v))
        before = copy.deepcopy((kwargs, inf))
        extra = {'node_info': inf} if inf is not None else {}
        if inf is not None:
            mon.event('node_info_given')
        getattr(subject, name)(**kwargs, **extra)
        if second is not None:      # the same objects for another circuit
            getattr(second, name)(**kwargs, **extra)
            mon.event('list_shared_by_several_circuits')
        mon.check(same(before[0], kwargs) and same(before[1], inf), lambda: '%s: %s changed its arguments %s %s into %s %s' % (what, name, before[0], before[1], kwargs, inf))
        mon.event('arguments_unchanged')
        handed.append((kwargs, inf))
    got = outcome(subject, sp, kind, states, mon)
    mon.check(agree(got, want), lambda: '%s, built from lists used for several nodes (%s): %s, expected %s' % (what, reuse, got[:6], want[:6]))
    if not reuse:
        for (kwargs, inf), (_, k0), i0 in zip(handed, *pristine):
            mon.check(same(kwargs, k0) and same(inf, i0), lambda: '%s: evaluation changed the arguments into %s %s' % (what, kwargs, inf))
    for _ in range(2):
        for kwargs, inf in handed:
            for v in list(kwargs.values()) + [inf]:
                if isinstance(v, (list, dict, np.ndarray)):
                    spoil(rng, v, mon)
                    mon.event('changed_after_building')
        for circuit in (subject, second):
            if circuit is not None:
                got = outcome(circuit, sp, kind, states, mon)
                mon.check(agree(got, want), lambda: '%s, after the caller changed the objects handed over to %s: %s, expected %s' % (what, [h for h in handed], got[:6], want[:6]))
                mon.event('circuits_compared')
        mon.event('evaluated_twice')
    if kind == 'ordinary' and rng.random() < 0.2:
        parts = [reference, gen.circuit(sp)]
        cc = fsc.CompoundFockStateCircuit(parts)
        col = gen.collection(reference, sp, states)
        one = gen.observe(cc.evaluate_circuit(col), sp, mon)
        grown = rng.choice(parts)
        for o in [gen.op(rng, sp, ref.OPTICAL), gen.op(rng, sp, ref.OPTICAL)]:
            gen.add_op(grown, o)
        two = gen.observe(cc.evaluate_circuit(col), sp, mon)
        gen.compare(mon, two, one, 1e-6, what + ': compound circuit, not refreshed, after nodes were added to one of its circuits')
        mon.event('compound_parts_grown')
        parts.reverse()
        parts.pop()
        two = gen.observe(cc.evaluate_circuit(col), sp, mon)
        gen.compare(mon, two, one, 1e-6, what + ': compound circuit after its list of circuits was changed')
        mon.event('compound_circuits')
    mon.nontrivial(sp, reuse, second is None, [(n, sorted(k)) for n, k in pristine[0]], [bool(i) for i in infos])
    mon.sample(dict(spec=sp, calls=[n for n, _ in calls], reused=reuse, outcomes=len(want)))


class _Quiet:
    def event(self, *a):
        pass


QUIET = _Quiet()
