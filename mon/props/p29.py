"""P29: taking states apart into columns and photons, and putting them together again, loses nothing."""
import cmath
import collections
import copy
import math
import re

import numpy as np

from mon import gen, photons, ref, special

import fock_state_circuit as fsc
from fock_state_circuit.temporal_and_spectral_gate_functionality.temporal_functions import photon_probability_function

ID = 'P29'
CASES = {'quick': 24000, 'thorough': 600000}
RULE = 'distinct by circuit shape, states and the operations done on the columns; non-trivial if a channel with several photons or a superposition was taken apart'
REQUIRED_EVENTS = ['column_of_one_state', 'column_of_several_states', 'split_into_photons', 'condensed', 'joined_from_different_states', 'information_filtered', 'information_for_others',
                   'information_for_all', 'state_from_column', 'too_many_photons', 'superposition_split', 'superposition_regenerated', 'phase_regenerated', 'superposition_refused', 'empty_collection', 'state_added_to_column', 'state_added_in_new_column', 'mixed_columns_split', 'mixed_columns_in_photons', 'joined_and_split', 'regenerated_from_photons', 'regenerated_unsplit',
                   'amplitudes_rescaled', 'boson_factors_rescaled', 'collection_taken_apart', 'collection_regenerated', 'photon_resolved_collection', 'probabilities_of_group',
                   'selected_outcomes', 'printed', 'measured_after_round_trip', 'columns_added', 'copied', 'reversed_notation', 'identifier_taken', 'vacuum_column']
MIN_DISTINCT = 200
ASSUMPTIONS = ['documented behaviour of ColumnOfStates, InterferenceGroup and CollectionOfStateColumns', 'columns are described by their documented attributes']
TOL = 1e-6


def boson(values):
    return math.sqrt(math.prod(math.factorial(v) for v in values))


def new_state(col, sp, amps, classical=None, weight=1.0, initial='in'):
    r = ref.RState(amps, classical or [0] * sp['ncl'], weight, [], initial)
    return gen.add_rstate(col, sp, r)


def content(s):
    """Everything in a state except the information about columns."""
    aux = {k: copy.deepcopy(v) for k, v in s.auxiliary_information.items() if k != 'photon_resolution'}
    return (s.initial_state, float(s.cumulative_probability), {k: complex(v['amplitude']) for k, v in s.optical_components.items()}, [float(v) for v in s.classical_channel_values],
            [([float(v) for v in m['measurement_results']], float(m['probability'])) for m in s.measurement_results], aux)


def same_content(mon, a, b, what, weight=True):
    mon.check(a[0] == b[0] and a[3:] == b[3:], lambda: '%s: %s instead of %s' % (what, a, b))
    if weight:
        mon.close(a[1], b[1], TOL, lambda: what + ': probability')
    for k in set(a[2]) | set(b[2]):
        mon.close(a[2].get(k, 0), b[2].get(k, 0), TOL, lambda: '%s: amplitude of %s' % (what, k))


def snapshot(column):
    return (column.column_identifier, complex(column.column_amplitude), float(column.column_boson_factor), column.interference_group_identifier, float(column.group_cumulative_probability),
            [(content(s), copy.deepcopy(s.auxiliary_information['photon_resolution'])) for s in column.list_of_states])


def values_of(s):
    return tuple(s._dict_of_valid_component_names[next(iter(s.optical_components))])


def check_marks(mon, column, what):
    """States of a column carry its attributes."""
    for s in column.list_of_states:
        m = s.auxiliary_information['photon_resolution']
        for k in ('column_identifier', 'column_amplitude', 'column_boson_factor', 'group_cumulative_probability', 'interference_group_identifier'):
            mon.check(m.get(k) == getattr(column, k), lambda: '%s: %s is %s in a state of the column, %s in the column' % (what, k, m.get(k), getattr(column, k)))


def column_case(rng, mon, sp, col, what):
    n = sp['nch']
    total = [0] * n
    parts = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        left = [sp['L'] - 1 - t for t in total]
        v = [rng.randint(0, min(x, 3)) if rng.random() < 0.6 else 0 for x in left]
        while sum(v) > 6:
            v[v.index(max(v))] -= 1
        total = [a + b for a, b in zip(total, v)]
        parts.append(tuple(v))
    classical = gen.random_classical(rng, sp)
    weight = round(rng.uniform(0.1, 1), 3)
    states = [new_state(col, sp, {v: 1.0 + 0j}, classical, weight, 'x') for v in parts]
    what = '%s, column of %s' % (what, parts)
    info = {}
    if len(states) == 1 and rng.random() < 0.5:
        column = fsc.ColumnOfStates(state=states[0], column_information=info)
        mon.event('column_of_one_state')
    else:
        if rng.random() < 0.5:
            info = dict(column_identifier=rng.randint(0, 5), column_amplitude=0.5j, group_cumulative_probability=0.25, interference_group_identifier=rng.randint(0, 5))
        column = fsc.ColumnOfStates(list_of_states=states[:1], column_information=info)
        for s in states[1:]:
            column.add_state(s)
        mon.event('column_of_several_states', len(states) > 1)
    for k, v in info.items():
        mon.check(getattr(column, k) == v, lambda: '%s: %s is %s, asked for %s' % (what, k, getattr(column, k), v))
    mon.check(len(column) == len(parts) and [values_of(column[i]) for i in range(len(parts))] == parts, what + ': states of the column')
    mon.check(column.all_states_single_photon_states() is all(sum(v) <= 1 for v in parts), what + ': all_states_single_photon_states')
    mon.check(bool(column.all_states_single_optical_component()), what + ': all_states_single_optical_component')
    check_marks(mon, column, what)
    name = col._dict_of_optical_values[tuple(total)]

    def component(c, where):
        mon.check(c.generate_optical_component_corresponding_to_column() == name, lambda: '%s%s: component %s, expected %s' % (what, where, c.generate_optical_component_corresponding_to_column(), name))
        mon.check(tuple(c.generate_optical_component_corresponding_to_column(True)) == tuple(total), lambda: '%s%s: values' % (what, where))
        mon.check(tuple(c.generate_optical_component_corresponding_to_column(True, True)) == tuple(total), lambda: '%s%s: stored values' % (what, where))
        got = sorted(ch for ch, _ in c.list_of_photons())
        mon.check(got == [ch for ch, t in enumerate(total) for _ in range(t)], lambda: '%s%s: photons %s' % (what, where, got))
    component(column, '')
    before = snapshot(column)

    # into single photons
    single = column.copy()
    mon.check(snapshot(single) == before, what + ': copy differs')
    mon.event('copied')
    single.single_photon_states()
    mon.check(snapshot(column) == before, what + ': changing a copy changed the column')
    mon.event('split_into_photons')
    expected = sorted(tuple(int(c == ch) for c in range(n)) for v in parts for ch, k in enumerate(v) for _ in range(k)) + [(0,) * n] * sum(1 for v in parts if not sum(v))
    mon.check(sorted(map(values_of, single)) == sorted(expected), lambda: '%s: split into %s' % (what, sorted(map(values_of, single))))
    mon.check(single.all_states_single_photon_states() is True, what + ': not single photons')
    mon.close(float(single.column_boson_factor), math.prod(boson(v) for v in parts), TOL, lambda: what + ': factor after splitting')
    for s in single:
        same_content(mon, content(s)[:2] + ({},) + content(s)[3:], content(states[0])[:2] + ({},) + content(states[0])[3:], what + ': a photon of the column')
    check_marks(mon, single, what)
    component(single, ' in photons')
    mon.event('vacuum_column', not any(total))

    # information about photons
    a, b = {'time_delay': 1.5, 'pulse_width': 2}, {'time_delay': 0, 'pulse_width': 1}
    old = [s.auxiliary_information['photon_resolution'].get('photon_information') for s in single]
    how = rng.randrange(3)
    occs = [values_of(s) for s in single]
    chosen = [list(o) if rng.random() < 0.5 else tuple(o) for o in rng.sample(occs, rng.randint(1, len(occs)))]
    marked = {tuple(o) for o in chosen}
    if how == 0:
        single.set_photon_information(a)
        want = [a] * len(occs)
        mon.event('information_for_all')
    elif how == 1:
        single.set_photon_information(a, chosen)
        want = [a if o in marked else i for o, i in zip(occs, old)]
        mon.event('information_filtered', len(marked) < len(set(occs)))
    else:
        single.set_photon_information(a, chosen, b)
        want = [a if o in marked else b for o in occs]
        mon.event('information_for_others', len(marked) < len(set(occs)))
    got = [s.auxiliary_information['photon_resolution'].get('photon_information') for s in single]
    mon.check(got == want, lambda: '%s: information %s, expected %s' % (what, got, want))
    listed = [i or None for _, i in single.list_of_photons()]
    mon.check(listed == [i for o, i in zip(occs, want) if any(o)], lambda: '%s: information listed %s' % (what, listed))
    mon.check(snapshot(column) == before, what + ': information about a copy changed the column')

    # and together
    use = rng.random() < 0.5
    for source, where in ((column, ''), (single, ' from photons')):
        keep = snapshot(source)
        s = source.generate_single_state_from_column(use_group_cumulative_probability_for_state=use)
        mon.check(snapshot(source) == keep, lambda: '%s%s: making a state changed the column' % (what, where))
        mon.check('photon_resolution' not in s.auxiliary_information, lambda: '%s%s: state carries column information' % (what, where))
        w = column.group_cumulative_probability * abs(column.column_amplitude) ** 2 if use else weight
        same_content(mon, content(s), ('x', float(w), {name: 1 + 0j}, [float(x) for x in classical], [], {}), '%s: state from the column%s' % (what, where))
        mon.event('state_from_column')
        c = source.copy()
        c.condense_column_to_single_state(use)
        mon.check(len(c) == 1 and values_of(c[0]) == tuple(total) and abs(complex(c[0].optical_components[name]['amplitude']) - 1) < TOL, lambda: '%s%s: condensed to %s' % (what, where, [values_of(x) for x in c]))
        mon.close(float(c.column_boson_factor), math.prod(boson(v) for v in parts) / boson(total), TOL, lambda: '%s: factor after joining%s' % (what, where))
        mon.close(float(c[0].cumulative_probability), w, TOL, lambda: '%s: probability after joining%s' % (what, where))
        check_marks(mon, c, what)
        mon.event('condensed')
        mon.event('joined_from_different_states', len(parts) > 1)
    text = str(column)
    mon.check(all(k in text for s in column for k in s.optical_components), lambda: '%s: printed as %r' % (what, text))
    mon.check(snapshot(column) == before, what + ': printing changed the column')
    if max(total) > (sp['L'] - 1) // 2:      # one channel would need more photons than there can be
        big = column.copy()
        for s in column.copy().list_of_states:
            big.add_state(s)
        if max(2 * t for t in total) >= sp['L']:
            try:
                big.condense_column_to_single_state()
                joined = True
            except Exception:
                joined = False
            mon.check(not joined, what + ': joined into a state with too many photons')
            mon.check(tuple(big.generate_optical_component_corresponding_to_column(True)) == tuple(2 * t for t in total), what + ': values above the largest photon number')
            mon.event('too_many_photons')
    if max(total) > 1 or len(parts) > 1:
        mon.nontrivial(sp, parts, how, sorted(marked))


def group_case(rng, mon, sp, col, what):
    a = gen.random_amps(rng, sp, rng.choice([None, rng.randint(0, min(3, (sp['L'] - 1) * sp['nch']))]))
    most, photons_each = rng.choice([(2, 5), (4, 4), (8, 4), (16, 3)])      # the cost grows with the factorial of the photons
    a = dict([(k, v) for k, v in a.items() if sum(k) <= photons_each][:most]) or {(0,) * sp['nch']: 1.0 + 0j}
    norm = math.sqrt(sum(abs(v) ** 2 for v in a.values()))
    a = {k: v / norm for k, v in a.items()}
    classical, weight = gen.random_classical(rng, sp), round(rng.uniform(0.1, 1), 3)
    s = new_state(col, sp, a, classical, weight, 'y')
    s.measurement_results = [{'measurement_results': gen.random_classical(rng, sp), 'probability': 0.5} for _ in range(rng.choice([0, 1, 2]))]
    original = content(s)
    ident = rng.choice([None, rng.randint(0, 9)])
    what = '%s, group of %s' % (what, gen.show(a))
    group = fsc.InterferenceGroup(state=s, **({} if ident is None else {'interference_group_identifier': ident}))
    mon.check(len(group) == 1 and group.interference_group_identifier == (ident or 0), what + ': new group')
    mon.close(float(group.group_cumulative_probability), weight, TOL, lambda: what + ': probability of the group')
    if len(a) > 1:      # only what is not a superposition can be taken apart into photons
        whole = fsc.ColumnOfStates(state=s.copy())
        keep = snapshot(whole)
        try:
            whole.single_photon_states()
            refused = False
        except Exception:
            refused = True
        mon.check(refused, what + ': a superposition taken apart into the photons of %s' % sorted(map(values_of, whole)))
        mon.check(snapshot(whole) == keep, what + ': refused, but changed')
        mon.event('superposition_refused')
    split, single = rng.random() < 0.7, rng.random() < 0.5
    dim = {col._dict_of_optical_values[k]: v for k, v in a.items()}

    def check_group(g, where, scale=1.0):
        got = {}
        for c in g.by_column():
            comp = c.generate_optical_component_corresponding_to_column()
            mon.check(comp not in got, lambda: '%s%s: component %s in two columns' % (what, where, comp))
            got[comp] = complex(c.column_amplitude)
            for s in c.list_of_states:      # a state that was not a superposition keeps its phase
                got[comp] *= complex(next(iter(s.optical_components.values()))['amplitude'])
            mon.check(g.extract_column_by_identifier(c.column_identifier) is c, lambda: '%s%s: column %s' % (what, where, c.column_identifier))
            mon.check(c.interference_group_identifier == g.interference_group_identifier and abs(c.group_cumulative_probability - g.group_cumulative_probability) < TOL, lambda: what + where + ': column of another group')
            check_marks(mon, c, what + where)
        mon.check(set(got) == set(dim), lambda: '%s%s: columns %s' % (what, where, sorted(got)))
        mon.check(len(g) == len(dim), lambda: '%s%s: %d columns' % (what, where, len(g)))
        for k in dim:
            mon.close(got[k] * scale, dim[k], TOL, lambda: '%s%s: amplitude of column %s' % (what, where, k))
        mon.close(float(g.group_cumulative_probability), weight, TOL, lambda: what + where + ': probability of the group')
        mon.check(len(list(g.by_state())) == sum(len(c) for c in g.by_column()), what + where + ': states of the group')
    if split or single:
        group.split_columns()
        check_group(group, ' split')
        mon.check(all(len(s.optical_components) == 1 for s in group.by_state()), what + ': split leaves superpositions')
        mon.event('superposition_split', len(a) > 1)
    if single:
        group.single_photon_states()
        check_group(group, ' in photons')
        for c in group.by_column():
            v = c.generate_optical_component_corresponding_to_column(True)
            mon.close(float(c.column_boson_factor), boson(v), TOL, lambda: '%s: factor of column %s' % (what, v))
            mon.check(c.all_states_single_photon_states() is True, what + ': not single photons')
    # probabilities
    if single:
        g = fsc.InterferenceGroup(list_of_state_columns=[c.copy() for c in group.by_column()])
        g.photon_probability_function = photon_probability_function
        out = g.total_probability_for_group_all_outcomes()
        mon.check(set(out) == set(dim), lambda: '%s: outcomes %s' % (what, sorted(out)))
        for k in dim:
            mon.close(float(out[k]), abs(dim[k]) ** 2, 2 * TOL, lambda: '%s: probability of %s' % (what, k))
        mon.event('probabilities_of_group')
        some = rng.sample(sorted(dim), rng.randint(1, len(dim)))
        sel = g.total_probability_for_group_all_outcomes(some)
        mon.check(set(sel) == set(some) and all(abs(float(sel[k]) - abs(dim[k]) ** 2) < 2 * TOL for k in some), lambda: '%s: selected %s: %s' % (what, some, sel))
        mon.event('selected_outcomes')
        f = rng.choice([2.0, 0.5, 3.0])
        if rng.random() < 0.5:
            for c in g.by_column():
                c.column_amplitude = c.column_amplitude * f
            g.rescale_column_amplitudes()
            check_group(g, ' rescaled')
            mon.event('amplitudes_rescaled')
        else:
            for i, c in enumerate(g.by_column()):
                c.column_boson_factor = c.column_boson_factor * f
                if sum(c.generate_optical_component_corresponding_to_column(True)) and rng.random() < 0.5:      # photons that differ
                    for j, p in enumerate(c.list_of_states):
                        p.auxiliary_information['photon_resolution']['photon_information'] = {'time_delay': j, 'pulse_width': 1}
            g.rescale_boson_factors()
            for c in g.by_column():
                alone = fsc.InterferenceGroup(list_of_state_columns=[c.copy()])
                alone.photon_probability_function = photon_probability_function
                k = c.generate_optical_component_corresponding_to_column()
                mon.close(float(alone.total_probability_for_group_all_outcomes()[k]), abs(dim[k]) ** 2, 1e-5, lambda: '%s: probability to detect %s by itself' % (what, k))
            mon.event('boson_factors_rescaled')
    text = str(group)
    keep = [snapshot(c) for c in group.by_column()]
    mon.check(all(k in text for s in group.by_state() for k in s.optical_components), lambda: '%s: printed as %r' % (what, text))
    p = [float(x) for x in re.findall(r'probability:\s*(-?\d+\.\d+)', text)]
    mon.check(any(abs(x - weight) < 0.00501 for x in p), lambda: '%s: probability printed as %s' % (what, p))
    mon.check([snapshot(c) for c in group.by_column()] == keep, what + ': printing changed the group')
    mon.event('printed')
    # put together again
    back = group.generate_single_state_from_interference_group()
    same_content(mon, content(back), original, what + ': state from the group (%s, %s)' % (split, single))
    mon.check('photon_resolution' not in back.auxiliary_information, what + ': state from the group carries column information')
    mon.event('superposition_regenerated', len(a) > 1)
    mon.event('phase_regenerated', len(a) == 1 and not single)
    mon.event('regenerated_from_photons', single)
    mon.event('regenerated_unsplit', not split and not single)
    # another column in the group
    n = len(group)
    used = [c.column_identifier for c in group.by_column()]
    extra = fsc.ColumnOfStates(state=new_state(col, sp, {(0,) * sp['nch']: 1.0 + 0j}, classical, weight, 'y'))
    wish = rng.choice([None, rng.choice(used), max(used) + 3])
    group.add_column(extra, *(() if wish is None else (wish,)))
    mon.event('columns_added')
    mon.event('identifier_taken', wish in used)
    mon.check(len(group) == n + 1 and len({id(c) for c in group.by_column()}) == n + 1, what + ': column added')
    mon.check([c for c in group.by_column() if c is extra] == [extra], what + ': column not found')
    number = extra.column_identifier
    mon.check(wish is None or wish in used or number == wish, lambda: '%s: column %s asked for, it became %s' % (what, wish, number))
    mon.check(number not in used and group.extract_column_by_identifier(number) is extra, lambda: '%s: column %s found under another number' % (what, number))
    mon.check(extra.interference_group_identifier == group.interference_group_identifier, what + ': the new column says it is in another group')
    check_marks(mon, extra, what + ', added column')
    # states added to columns
    members = {c.column_identifier: [id(x) for x in c.list_of_states] for c in group.by_column()}
    for _ in range(rng.randint(1, 3)):
        s = new_state(col, sp, {(0,) * sp['nch']: 1.0 + 0j}, classical, weight, 'y')
        asked = rng.choice([None, rng.choice(sorted(members)), max(members) + rng.randint(1, 4)])
        marked = None
        if rng.random() < 0.5:
            marked = rng.choice([rng.choice(sorted(members)), max(members) + rng.randint(1, 4)])
            s.auxiliary_information['photon_resolution'] = {'column_identifier': marked}
        wanted = marked if asked is None else asked
        group.add_state(s, *(() if asked is None else (asked,)))
        got = {c.column_identifier: [id(x) for x in c.list_of_states] for c in group.by_column()}
        if wanted is None:
            added = [k for k in got if k not in members]
            mon.check(len(added) == 1, lambda: '%s: columns %s after a state was added to %s' % (what, sorted(got), sorted(members)))
            wanted = added[0]
        mon.event('state_added_to_column', wanted in members)
        mon.event('state_added_in_new_column', wanted not in members)
        members.setdefault(wanted, []).append(id(s))
        mon.check(got == members, lambda: '%s: state added to column %s (%s, %s): now %s' % (what, wanted, asked, marked, {k: len(v) for k, v in got.items()}))
        mon.check(len(group) == len(members) and all(group.extract_column_by_identifier(k).column_identifier == k for k in members), what + ': columns by number')
        check_marks(mon, group.extract_column_by_identifier(wanted), what + ', column with the added state')
    if len(a) > 1 or any(max(k) > 1 for k in a):
        mon.nontrivial(sp, sorted(a), split, single)


def collection_case(rng, mon, what):
    resolved = rng.random() < 0.5
    if resolved:
        sp = gen.spec(rng, lengths=(3, 4), channels=(2, 3), ncl=(0, 0))
        sp['ncl'] = sp['nch']
        states = special.low_states(rng, sp, 2)
        ops = special.linear(rng, sp, 1) + [special.delay_op(rng, sp, special.DELAYS[2:] if rng.random() < 0.7 else special.DELAYS[:2])] + special.linear(rng, sp, 1)
        c, _ = special.build(sp, ops)
        col = c.evaluate_circuit(gen.collection(c, sp, states))
        mon.event('photon_resolved_collection', col.is_photon_resolved())
    else:
        sp = gen.spec(rng, max_dim=130, lengths=(2, 3, 4), channels=(2, 3, 4), ncl=(0, 3))
        sp['ncl'] = max(sp['ncl'], sp['nch'])
        states = gen.rstates(rng, sp, count=rng.randint(1, 4), weights=True)
        if len(states) > 1 and rng.random() < 0.5:
            states[1].initial = states[0].initial
        col = gen.collection(gen.circuit(sp), sp, states)
    if rng.random() < 0.2:      # nothing to take apart
        none = gen.collection(gen.circuit(sp), sp, [])
        cc = fsc.CollectionOfStateColumns(none)
        cc.split()
        cc.single_photon_states()
        back, new = cc.generate_collection_of_states(), cc.new_instance_from_state_information()
        mon.check(isinstance(back, fsc.CollectionOfStates) and len(back) == 0, lambda: 'empty collection on %s: %r comes back' % (sp, back))
        mon.check(not list(new.by_state()) and not list(cc.by_group()) and not list(cc.by_column()), 'empty collection on %s: states in the columns' % sp)
        mon.event('empty_collection')
    mon.event('reversed_notation', not sp['left'])
    what = '%s collection of %d states on %s' % ('photon-resolved' if resolved else 'ordinary', len(col), sp)
    contents = [content(s) for s in col]
    order = lambda l: sorted(l, key=repr)
    work = col.copy()
    cc = fsc.CollectionOfStateColumns(work)
    mon.check(order(map(content, cc.by_state())) == order(contents), what + ': states taken apart')
    mon.event('collection_taken_apart')
    groups = [(ini, k, g) for ini, d in cc.as_dictionary().items() for k, g in d.items()]
    mon.check([id(g) for g in cc.by_group()] == [id(g) for _, _, g in groups], what + ': by_group')
    mon.check(sum(len(g) for g in cc.by_group()) == len(list(cc.by_column())), what + ': by_column')
    for ini, k, g in groups:
        mon.check(all(s.initial_state == ini for s in g.by_state()), what + ': group of another initial state')
        mon.check(g.interference_group_identifier == k, lambda: '%s: group %s calls itself %s' % (what, k, g.interference_group_identifier))
        free = cc.find_next_free_interference_group_identifier(ini)
        mon.check(free not in cc.as_dictionary()[ini] and all(i in cc.as_dictionary()[ini] for i in range(free)), lambda: '%s: next free number %s' % (what, free))
    if not resolved:
        mon.check(len(groups) == len(contents), what + ': one group per state expected')
    keep = order([snapshot(x) for x in cc.by_column()])
    again = cc.generate_collection_of_states()
    mon.check(order(map(content, again)) == order(contents), what + ': collection made from columns')
    mon.event('collection_regenerated')
    mon.check(order([snapshot(x) for x in cc.by_column()]) == keep, what + ': making a collection changed the columns')
    if rng.random() < 0.6:
        cc.split()
        if rng.random() < 0.5:
            cc.single_photon_states()
    keep = order([snapshot(x) for x in cc.by_column()])
    new = cc.new_instance_from_state_information()
    strip = lambda l: order([repr(x) for x in l])
    mon.check(strip([snapshot(x) for x in new.by_column()]) == strip(keep), lambda: '%s: new instance %s, expected %s' % (what, strip([snapshot(x) for x in new.by_column()])[:3], strip(keep)[:3]))
    weights = sorted((str(g.group[next(iter(g.group))]), round(float(g.group_cumulative_probability), 9)) for g in cc.by_group())
    mon.check(sorted((str(g.group[next(iter(g.group))]), round(float(g.group_cumulative_probability), 9)) for g in new.by_group()) == weights, what + ': weights of groups')
    for s in new.by_state():
        s.classical_channel_values[0] = 77
    mon.check(order([snapshot(x) for x in cc.by_column()]) == keep, what + ': the new instance shares states')
    text = str(cc)
    mon.check(all(str(ini) in text for ini, _, _ in groups) and all(k in text for s in cc.by_state() for k in s.optical_components), lambda: '%s: printed as %r' % (what, text))
    mon.check(order([snapshot(x) for x in cc.by_column()]) == keep, what + ': printing changed the columns')
    mon.event('printed')
    # measuring what has been taken apart and put together again
    chans = list(range(sp['nch']))
    m = gen.circuit(sp)
    m.measure_optical_to_classical(chans, chans)
    if resolved:
        one = photons.reported(m.evaluate_circuit(col), chans, sp)
        two = photons.reported(m.evaluate_circuit(cc.generate_collection_of_states()), chans, sp)
        mon.check(set(one) == set(two), what + ': initial states after the round trip')
        for ini in one:
            for k in set(one[ini]) | set(two[ini]):
                mon.close(float(two[ini].get(k, 0)), float(one[ini].get(k, 0)), 2e-4, lambda: '%s: probability of %s after the round trip' % (what, k))
        mon.event('measured_after_round_trip')
    mon.check([content(s) for s in col] == contents, what + ': the collection itself changed')
    mon.nontrivial(sp, resolved, [sorted(c[2]) for c in contents])


def mixed_case(rng, mon, sp, col, what):
    """Columns with several states, some of them superpositions, alone or together in a group."""
    n, top = sp['nch'], sp['L'] - 1
    classical, weight = gen.random_classical(rng, sp), round(rng.uniform(0.1, 1), 3)
    wanted, columns = collections.Counter(), []
    amplitude_of = {}
    for _ in range(rng.choice([1, 1, 2])):
        room = [top] * n
        states, per_state = [], []
        for _ in range(rng.choice([1, 2, 2, 3])):
            share = [rng.randint(0, min(x, 2)) for x in room]
            room = [x - y for x, y in zip(room, share)]
            comps = {tuple(rng.randint(0, y) for y in share) for _ in range(rng.choice([1, 1, 2, 3, 4]))}
            amps = {k: complex(rng.gauss(0, 1), rng.gauss(0, 1)) for k in sorted(comps)}
            norm = math.sqrt(sum(abs(v) ** 2 for v in amps.values()))
            amps = {k: v / norm for k, v in amps.items()}
            states.append(new_state(col, sp, amps, classical, weight, 'z'))
            per_state.append(amps)
        info = dict(column_identifier=len(columns), column_amplitude=cmath.rect(rng.uniform(0.2, 1), rng.uniform(-3, 3)), column_boson_factor=rng.choice([1, 1, 2.0]), group_cumulative_probability=weight, interference_group_identifier=4)
        marks = [{'time_delay': rng.choice([0, 0.5]), 'pulse_width': 1} for _ in states]
        for st, m in zip(states, marks):
            st.auxiliary_information['photon_resolution'] = {'photon_information': m}
        columns.append(fsc.ColumnOfStates(list_of_states=states, column_information=info))
        for st, m in zip(columns[-1].list_of_states, marks):
            mon.check(st.auxiliary_information['photon_resolution'].get('photon_information') == m, what + ': photon information lost in the column')
        todo = [((), info['column_amplitude'])]
        for amps, m in zip(per_state, marks):
            todo = [(seen + ((k, m['time_delay']),), x * v) for seen, x in todo for k, v in amps.items()]
        for seen, x in todo:
            wanted[seen, info['column_boson_factor']] += 1
            amplitude_of.setdefault((seen, info['column_boson_factor']), []).append(x)
    if sum(wanted.values()) > 60:
        return
    what = '%s, columns of %s' % (what, ['+'.join(gen.show(a) for a in per_state)])
    group = fsc.InterferenceGroup(list_of_state_columns=columns)
    mon.check(group.interference_group_identifier == 4 and abs(group.group_cumulative_probability - weight) < TOL, what + ': group of columns')
    several = max(len(k[0]) for k in wanted) > 1
    mixed = len(wanted) > len(columns)

    def compare(g, where):
        got = {}
        for c in g.by_column():
            x = complex(c.column_amplitude)
            seen = []
            for st in c.list_of_states:
                x *= complex(next(iter(st.optical_components.values()))['amplitude'])
                seen.append((values_of(st), st.auxiliary_information['photon_resolution']['photon_information']['time_delay']))
            got.setdefault((tuple(seen), c.column_boson_factor), []).append(x)
            check_marks(mon, c, what + where)
        mon.check({k: len(v) for k, v in got.items()} == dict(wanted), lambda: '%s%s: columns %s, expected %s' % (what, where, sorted(got)[:6], sorted(wanted)[:6]))
        for k, v in got.items():
            for x, y in zip(sorted(v, key=lambda z: (round(z.real, 5), round(z.imag, 5))), sorted(amplitude_of[k], key=lambda z: (round(z.real, 5), round(z.imag, 5)))):
                mon.close(x, y, 1e-5, lambda: '%s%s: amplitude of column %s' % (what, where, k))
        ids = [c.column_identifier for c in g.by_column()]
        mon.check(len(set(ids)) == len(ids), lambda: '%s%s: identifiers %s' % (what, where, ids))
        states = [id(st) for c in g.by_column() for st in c.list_of_states]
        mon.check(len(set(states)) == len(states), what + where + ': columns share states')
        infos = [id(st.auxiliary_information['photon_resolution']) for c in g.by_column() for st in c.list_of_states]
        mon.check(len(set(infos)) == len(infos), what + where + ': columns share information about photons')
    group.split_columns()
    compare(group, ' split')
    mon.event('mixed_columns_split', mixed and several)
    group.split_columns()
    compare(group, ' split twice')
    mon.check(len(list(group.by_state())) == sum(len(k[0]) * v for k, v in wanted.items()), what + ': states of the group')
    # into photons, each with the information of its state
    group.single_photon_states()
    photon_columns = collections.Counter()
    for c in group.by_column():
        photon_columns[tuple(sorted((ch, i['time_delay']) for ch, i in c.list_of_photons()))] += 1
    expected = collections.Counter()
    for (seen, _), k in wanted.items():
        expected[tuple(sorted((ch, t) for v, t in seen for ch, m in enumerate(v) for _ in range(m)))] += k
    mon.check(photon_columns == expected, lambda: '%s: photons %s, expected %s' % (what, sorted(photon_columns.items())[:6], sorted(expected.items())[:6]))
    factors = sorted((round(float(c.column_boson_factor), 4) for c in group.by_column()))
    mon.check(np.allclose(factors, sorted(f * math.prod(boson(v) for v, _ in seen) for (seen, f), k in wanted.items() for _ in range(k)), atol=1e-3), what + ': factors')
    for g, name in ((group, 'group'),):
        keep = [snapshot(c) for c in g.by_column()]
        for c in list(g.by_column()):
            d = c.copy()
            d.set_photon_information({'time_delay': 9, 'pulse_width': 9})
            if d.list_of_states:
                d.list_of_states[0].classical_channel_values[:] = [8] * sp['ncl']
        mon.check([snapshot(c) for c in g.by_column()] == keep, '%s: the copy of a column in the %s shares something with it' % (what, name))
    mon.event('mixed_columns_in_photons', mixed)
    # boson factors belong to the column: joining and splitting again must give them back
    for c in list(group.by_column())[:3]:
        d, f = c.copy(), float(c.column_boson_factor)
        total = d.generate_optical_component_corresponding_to_column(True)
        d.condense_column_to_single_state()
        mon.close(float(d.column_boson_factor), f / boson(total), TOL, lambda: what + ': factor of the joined column')
        d.single_photon_states()
        mon.close(float(d.column_boson_factor), f, TOL, lambda: what + ': factor after joining and splitting')
        mon.event('joined_and_split')
    if mixed and several:
        mon.nontrivial(sp, sorted(wanted))


def run_case(rng, mon, idx, tier):
    if idx % 5 == 4:
        return collection_case(rng, mon, '')
    sp = gen.spec(rng, max_dim=300, lengths=(2, 3, 4, 5, 7, 11), channels=(2, 2, 3, 4), ncl=(0, 3))
    mon.event('reversed_notation', not sp['left'])
    col = fsc.CollectionOfStates(gen.circuit(sp), input_collection_as_a_dict={})
    what = 'L=%(L)s, %(nch)s channels, left=%(left)s' % sp
    if idx % 5 == 3:
        mixed_case(rng, mon, sp, col, what)
    elif idx % 2:
        column_case(rng, mon, sp, col, what)
    else:
        group_case(rng, mon, sp, col, what)
