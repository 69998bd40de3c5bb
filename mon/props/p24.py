"""P24: refused requests leave circuit, states and collection as they were; the documented invalid requests are refused."""
import numpy as np

from mon import gen
from mon.props.p23 import circuit_print

import fock_state_circuit as fsc

ID = 'P24'
CASES = {'quick': 40000, 'thorough': 600000}
RULE = 'distinct by circuit, states and the sequence of refused requests; non-trivial if a request was refused in the middle of a history'
GROUPS = ['element', 'pair_element', 'mixer', 'shift', 'measurement', 'classical', 'controlled', 'matrix', 'evaluation', 'components', 'values', 'collection', 'resize',
          'circuit', 'drawing', 'user_function', 'correlated_pairs']
REQUIRED_EVENTS = ['group:' + g for g in GROUPS] + ['after_evaluation', 'empty_circuit', 'refused_halfway', 'evaluated_after_refusals', 'same_result']
MIN_DISTINCT = 200
ASSUMPTIONS = ['only requests which the documentation or an error message describes as invalid are made']


class NotRefused(Exception):
    pass


def bad_channel(rng, n):
    return n + rng.choice([0, 0, 1, 7])


def pick(rng, mon, sp, ops, c, col):
    """One invalid request: (group, description, call)."""
    n, k, L = sp['nch'], sp['ncl'], sp['L']
    g = rng.choice(GROUPS)
    a, b = rng.sample(range(n), 2)
    x = gen.angle(rng)
    if g == 'element':
        name, kw = rng.choice([('half_wave_plate', 'angle'), ('quarter_wave_plate', 'angle'), ('half_wave_plate_45', None), ('half_wave_plate_225', None), ('quarter_wave_plate_45', None),
                               ('quarter_wave_plate_225', None), ('wave_plate', 'theta'), ('swap', None), ('mix_50_50', None), ('mix_generic_refl_transm', None)])
        h, v = rng.choice([(a, a), (a, bad_channel(rng, n)), (bad_channel(rng, n), a)])
        names = ('first_channel', 'second_channel') if name in ('swap', 'mix_50_50', 'mix_generic_refl_transm') else ('channel_horizontal', 'channel_vertical')
        kwargs = {names[0]: h, names[1]: v}
        if kw:
            kwargs[kw] = x
        if name == 'mix_generic_refl_transm':
            kwargs.update(reflection=0.25, transmission=0.75)
        if rng.random() < 0.1:
            h = bad_channel(rng, n)
            return g, 'phase shift of channel %d' % h, lambda: c.phase_shift_single_channel(channel_for_shift=h, phase_shift=x)
        return g, '%s %s' % (name, kwargs), lambda: getattr(c, name)(**kwargs)
    if g == 'pair_element':
        name = rng.choice(['non_polarizing_beamsplitter', 'polarizing_beamsplitter', 'non_polarizing_50_50_beamsplitter'])
        kwargs = dict(reflection=0.25, transmission=0.75) if name == 'non_polarizing_beamsplitter' else {}
        if n < 4:
            kwargs.update(input_channels_a=[0, 1], input_channels_b=[n - 1, n - 2])
        else:
            p = rng.sample(range(n), 4)
            # the first pair of channels is fine, the second pair is not
            p[2:] = rng.choice([[p[2], p[1]], [p[2], bad_channel(rng, n)]])
            kwargs.update(input_channels_a=[p[0], p[1]], input_channels_b=[p[2], p[3]])
            mon.event('refused_halfway')
        return g, '%s %s' % (name, kwargs), lambda: getattr(c, name)(**kwargs)
    if g == 'mixer':
        r, t = rng.choice([(0.5, 0.6), (0.2, 0.2), (0, 0), (1, 1), (1.5, -0.5), (-0.25, 1.25), (0.9, 0.2)])
        if n >= 4 and rng.random() < 0.5:
            return g, 'beamsplitter reflection %r transmission %r' % (r, t), lambda: c.non_polarizing_beamsplitter(
                input_channels_a=[0, 1], input_channels_b=[2, 3], reflection=r, transmission=t)
        return g, 'mixer reflection %r transmission %r' % (r, t), lambda: c.mix_generic_refl_transm(first_channel=a, second_channel=b, reflection=r, transmission=t)
    if g == 'shift':
        name = rng.choice(['shift', 'shift_direct', 'c_shift', 'c_shift', 'c_shift_direct', 'channel_coupling'])
        if name.startswith('shift'):
            tch, s = rng.choice([([a, b], [1]), ([a], [1, 1]), ([bad_channel(rng, n)], [1]), ([-1], [1]), ([a], [-1] * (name == 'shift')), ([a, b], [1, -1] if name == 'shift' else [1]), ([a, bad_channel(rng, n)], [1, 1]),
                                 ([bad_channel(rng, n), a], [1, 1]), ([a, b], [-1, 1] if name == 'shift' else [1, 1, 1]), ([-1, a], [1, 1])])
            return g, '%s of %s by %s' % (name, tch, s), lambda: getattr(c, name)(target_channels=tch, shift_per_channel=s)
        con, tch = rng.choice([([a], [a]), ([a, b], [b]), ([a], [b, a]), ([bad_channel(rng, n)], [a]), ([a], [bad_channel(rng, n)]), ([-1], [a]), ([a], [-1]), ([a, b], [b, b]), ([b, a], [b, b]), ([bad_channel(rng, n), a], [b, b]),
                               ([a, a], [bad_channel(rng, n), b]), ([-1, a], [b, b]), ([a, b, a], [b, b, b]), ([a, a, a], [a, b, b]), ([a, a], [b, -1])])
        if name == 'channel_coupling':
            return g, 'coupling %s to %s' % (con, tch), lambda: c.channel_coupling(control_channels=con, target_channels=tch, coupling_strength=0.5)
        return g, '%s %s to %s' % (name, con, tch), lambda: getattr(c, name)(control_channels=con, target_channels=tch)
    if g == 'measurement':
        o, w = rng.choice([([a, b], [0]), ([a], [0, 0]), ([bad_channel(rng, n)], [0]), ([a], [bad_channel(rng, k)]), ([-1], [0]), ([a], [-1]), ([a, b], [0, bad_channel(rng, k)]), ([], [0]), ([bad_channel(rng, n), a], [0, k - 1]),
                           ([-1, a], [0, k - 1]), ([a, b], [bad_channel(rng, k), 0])])
        return g, 'measurement of %s into %s' % (o, w), lambda: c.measure_optical_to_classical(optical_channels_to_be_measured=o, classical_channels_to_be_written=w)
    if g == 'classical':
        v, w = rng.choice([([1, 2], [0]), ([1], [0, 0]), ([1], [bad_channel(rng, k)]), ([1], [-1]), ([1, 2], [0, bad_channel(rng, k)]), ([1, 2], [0, -2]), ([1, 2], [-1, 0]), ([1, 2], [bad_channel(rng, k), 0])])
        return g, 'values %s for classical channels %s of %d' % (v, w, k), lambda: c.set_classical_channels(list_of_values_for_classical_channels=v, list_of_classical_channel_numbers=w)
    if g == 'controlled':
        kind = rng.choice(['phase', 'plate', 'ham'])
        o, w = rng.choice([(0, bad_channel(rng, k)), (bad_channel(rng, n), bad_channel(rng, k)), (bad_channel(rng, n), 0)])
        if kind == 'phase':
            return g, 'phase of %d by classical %d' % (o, w), lambda: c.phase_shift_single_channel_classical_control(optical_channel_to_shift=o, classical_channel_for_phase_shift=w)
        f = c.wave_plate_classical_control if kind == 'plate' else c.wave_plate_from_hamiltonian_classical_control
        h, v = rng.choice([(o, 1), (1, o)])
        t, p = rng.choice([(w, 0), (0, w), (w, w)])
        return g, 'wave plate %d, %d by classical %d, %d' % (h, v, t, p), lambda: f(optical_channel_horizontal=h, optical_channel_vertical=v,
                                                                               classical_channel_for_orientation=t, classical_channel_for_phase_shift=p)
    if g == 'matrix':
        other = [i for i, q in enumerate(c.node_list) if q["node_type"] not in ("optical", "custom fock matrix")]
        if other and rng.random() < 0.5:
            sel = rng.choice(["all", [rng.choice(other)]])
            return g, "Fock matrix of nodes %s" % sel, lambda: c.get_fock_state_matrix(sel)
        s = rng.choice([(3, 3), (1, 1), (2, 3), (3, 2), (1, 2), (4, 4)])
        ch, m = [a, b], np.eye(max(s), dtype=complex)[:s[0], :s[1]]
        what = 'matrix of %s' % (s,)
        if rng.random() < 0.3:
            m = np.eye(2, dtype=complex)
            ch = rng.choice([[a, a], [0, 1, 1], [a, bad_channel(rng, n)]])
            what = 'matrix on %s' % ch
        return g, what, lambda: c.custom_optical_node(matrix_optical=m, optical_channels=ch)
    if g == 'evaluation':
        m = len(c.node_list)
        bad = rng.choice([[m], [-1], [m + 3], list(range(m)) + [m], [0, -1] if m else [0]])
        return g, 'evaluate nodes %s of %d' % (bad, m), lambda: c.evaluate_circuit(collection_of_states_input=col, nodes_to_be_evaluated=bad)
    states = [s for _, s in col.items()]
    s = rng.choice(states)
    good = rng.choice(list(s._dict_of_valid_component_names))
    other = rng.choice(['zz', good + good[-1], good[:-1], '', good[:-1] + 'x', '-' + good[1:], ' ' + good[1:], '+' + good[1:], ''.join(chr(0xff10 + int(d)) for d in good)])
    if g == 'components':
        val = rng.choice([{other: {'amplitude': 1, 'probability': 1}}, {good: {'amplitude': 1, 'probability': 1}, other: {'amplitude': 0, 'probability': 0}},
                          {good: {'amplitude': 1}}, {good: {'probability': 1}}, [(other, 1)], [(good, 1), (other, 0.5)], [(good, 'text')], ((good, 1),), good, None, 5])
        return g, 'components %r' % (val,), lambda: setattr(s, 'optical_components', val)
    if g == 'values':
        what, val = rng.choice([('classical_channel_values', [0] * (k + 1)), ('classical_channel_values', [0] * (k - 1) if k else [0]), ('classical_channel_values', tuple([0] * k)),
                                ('classical_channel_values', None), ('cumulative_probability', 1.5), ('cumulative_probability', -0.2), ('cumulative_probability', 7),
                                ('cumulative_probability', float('nan')),
                                ('measurement_results', {'a': 1}), ('measurement_results', None), ('measurement_results', 'x'), ('auxiliary_information', []),
                                ('auxiliary_information', None), ('auxiliary_information', 'x')])
        if rng.random() < 0.5:
            return g, '%s = %r' % (what, val), lambda: s.__setitem__(what, val)
        return g, '%s = %r' % (what, val), lambda: setattr(s, what, val)
    d = s.copy().state
    bads = [('cumulative_probability', 1.5), ('cumulative_probability', -0.5), ('cumulative_probability', 'x'), ('optical_components', []), ('optical_components', {3: {'amplitude': 1, 'probability': 1}}),
            ('optical_components', {good: 1}), ('optical_components', {good: {'amplitude': 2, 'probability': 4}}), ('optical_components', {good: {'amplitude': 1}}),
            ('classical_channel_values', [0] * (k + 1)), ('classical_channel_values', 5), ('classical_channel_values', tuple([0] * k)), ('measurement_results', 5), ('measurement_results', {'a': 1}),
            ('initial_state', 5), ('initial_state', None)]
    if g == 'collection':
        key, val = rng.choice(bads)
        d = dict(d, **{key: val})
        r = rng.random()
        if r < 0.4:
            return g, 'state with %s = %r' % (key, val), lambda: fsc.State(col, input_state_as_a_dict=d)
        if r < 0.6:
            return g, 'collection with state %s = %r' % (key, val), lambda: fsc.CollectionOfStates(c, input_collection_as_a_dict={'one': s.copy(), 'two': d})
        bad = rng.choice([{5: s.copy()}, {'one': 5}, {'one': s.copy(), 'two': None}, {'one': s.copy(), 'two': [s.copy()]}, {None: s.copy()}, [s.copy()], 'x', 5, {('a', 1): s.copy()}])
        if r < 0.8:
            return g, 'collection from %s' % (short(bad),), lambda: fsc.CollectionOfStates(c, input_collection_as_a_dict=bad)

        def ignored():
            col.collection_from_dict(bad)
            # this function does not raise, it leaves the collection as it was
            raise NotRefused()
        return g, 'collection_from_dict with %s' % (short(bad),), ignored
    if g == 'resize':
        r = rng.randrange(4)
        if r == 0:
            ch = rng.choice([[bad_channel(rng, n)], [0, bad_channel(rng, n)], [-1], ['x']])
            return g, 'reduce to %s' % ch, lambda: col.reduce(optical_channels_to_keep=ch)
        if r == 1:
            ch = rng.choice([[bad_channel(rng, k)], [-1], ['x']])
            return g, 'reduce to classical %s' % ch, lambda: col.reduce(classical_channels_to_keep=ch)
        if r == 2:
            v = rng.choice([-1, -2])
            return g, 'length %d' % v, lambda: col.adjust_length_of_fock_state(new_length_of_fock_state=v)
        kw = rng.choice([dict(extra_optical_channels=-1), dict(extra_classical_channels=-1), dict(extra_optical_channels=1, extra_classical_channels=-2),
                         dict(extra_optical_channels=1, statistical_distribution=[1] * (L + 1)), dict(extra_optical_channels=1, statistical_distribution=[1])])
        if kw.get('statistical_distribution') == [1] and L == 1:
            kw = dict(extra_optical_channels=-1)
        return g, 'extend by %s' % kw, lambda: col.extend(**kw)
    if g == 'circuit':
        kw = rng.choice([dict(length_of_fock_state=0), dict(length_of_fock_state=2, no_of_optical_channels=1), dict(no_of_optical_channels=0), dict(length_of_fock_state=-1),
                         dict(no_of_optical_channels=-3), dict(length_of_fock_state=3, no_of_optical_channels=1, no_of_classical_channels=2)])
        return g, 'circuit with %s' % kw, lambda: fsc.FockStateCircuit(**kw)
    if g == 'user_function':
        # a function of the user which fails somewhere in the evaluation
        d, _ = gen.build(sp, ops, 'failing')
        fail = rng.choice(['classical', 'generic'])
        later = rng.randrange(len(states))
        calls = []

        def classical(values, new, channels):
            calls.append(1)
            values[:] = [7] * len(values)
            if len(calls) > later:
                raise ZeroDivisionError('user function')
            return values

        def generic(collection, parameters):
            for _, q in collection.items():
                q.cumulative_probability = 0.125
            raise ZeroDivisionError('user function')
        if fail == 'classical':
            d.classical_channel_function(function=classical, affected_channels=[0] if k else [], new_input_values=[1])
        else:
            d.generic_function_on_collection(generic, None, [0], [])
        return g, 'evaluation with a %s function which raises' % fail, lambda: d.evaluate_circuit(collection_of_states_input=col)
    if g == 'drawing':
        if not c.node_list and rng.random() < 0.8:
            return g, 'drawing without nodes', lambda: c.draw()
        st = dict(station_channels={'total_circuit': dict(optical_channels=[0], classical_channels=[]), 'alice': dict(optical_channels=[1], classical_channels=[])},
                  station_to_draw=rng.choice(['total_circuit', 'alice', ['alice']]))
        return g, 'drawing station total_circuit', lambda: c.draw_station(st)
    return g, 'measurement of correlated pairs without preparation', lambda: c.perform_measurement_pr_correlation(col, [0], [0])


def short(x):
    return {k: type(v).__name__ for k, v in x.items()} if isinstance(x, dict) else type(x).__name__


def run_case(rng, mon, idx, tier):
    sp = gen.spec(rng, max_dim=100, lengths=(1, 2, 3, 4), channels=(2, 3, 4, 5), ncl=(0, 3))
    kinds = ['half_wave_plate', 'wave_plate', 'mix_50_50', 'swap', 'phase', 'custom_optical', 'shift']
    if sp['ncl']:
        kinds += ['phase_cc', 'set_classical', 'measure']
    ops = [gen.op(rng, sp, kinds) for _ in range(rng.choice([0, 0, 1, 2, 3, 5]))]
    c, _ = gen.build(sp, ops, rng.choice([None, 'c']))
    states = gen.rstates(rng, sp, rng.choice([1, 2, 3]), fixed_number=rng.randint(0, min(2, sp['L'] - 1)))
    col = gen.collection(c, sp, states)
    if not ops:
        mon.event('empty_circuit')
    if rng.random() < 0.4:
        col = c.evaluate_circuit(col)
        if rng.random() < 0.3:
            col = col.copy()
        mon.event('after_evaluation')
    expected = gen.observe(c.evaluate_circuit(col.copy()), sp) if ops else None
    done = []
    refused = 0
    for _ in range(rng.choice([3, 6, 10])):
        g, what, call = pick(rng, mon, sp, ops, c, col)
        done.append((g, what))
        before = (circuit_print(c), gen.fingerprint(col, sp), settings(col))
        try:
            call()
            ok = False
        except NotRefused:
            ok = True
        except Exception as e:
            ok = True
            mon.event('error:' + type(e).__name__)
        head = 'L=%d channels=%d classical=%d operations %s: %s' % (sp['L'], sp['nch'], sp['ncl'], [o['kind'] for o in ops], what)
        mon.check(ok, lambda: '%s: accepted instead of refused' % head)
        after = (circuit_print(c), gen.fingerprint(col, sp), settings(col))
        mon.check(after[0] == before[0], lambda: '%s: the refused request changed the circuit: %d nodes, was %d' % (head, len(after[0][4]), len(before[0][4])))
        mon.check(after[1:] == before[1:], lambda: '%s: the refused request changed the collection: %s, was %s' % (head, str(after[1:])[:600], str(before[1:])[:600]))
        mon.event('group:' + g)
        refused += 1
    if refused and ops:
        mon.event('evaluated_after_refusals')
        gen.compare(mon, gen.observe(c.evaluate_circuit(col), sp), expected, 1e-4, 'after refused requests %s' % done)
        mon.event('same_result')
    mon.nontrivial(sp, ops, [gen.show(s.amps) for s in states], done)


def settings(col):
    return (col._no_of_optical_channels, col._no_of_classical_channels, col._length_of_fock_state, col._channel_0_left_in_state_name, len(col._dict_of_valid_component_names))
