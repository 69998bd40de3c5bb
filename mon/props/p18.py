"""P18: quick time delay."""
import math

import numpy as np

from mon import gen, photons, ref, special
from mon.props import p17

from fock_state_circuit.temporal_and_spectral_gate_functionality.collection_of_state_columns import CollectionOfStateColumns

ID = 'P18'
CASES = {'quick': 1800, 'thorough': 60000}
RULE = 'distinct by circuit shape, nodes with delays and widths, and inputs; non-trivial if both the overlapping and the separated part mattered for an outcome'
REQUIRED_EVENTS = ['many_photons', 'delay:time_delay', 'delay:time_delay_classical_control', 'zero_delay', 'long_delay', 'weights_split', 'single_photon', 'two_photons', 'three_photons',
                   'several_states', 'weights_below_one', 'mixtures', 'different_photon_numbers', 'vacuum', 'reversed_notation', 'superpositions', 'interference_mattered', 'overlap_mattered',
                   'bandwidth_argument', 'default_width', 'different_classical_values', 'large_superpositions', 'zero_delay_equals_no_delay']
MIN_DISTINCT = 30
ASSUMPTIONS = ['one to three photons behind a delay', 'one quick delay per circuit (the documentation allows only a single one)', 'tolerance 4e-4']
TOL = 4e-4


def add(c, o, rng, mon):
    """Add a node, sometimes using other ways to state the pulse width."""
    if o['kind'] not in ('time_delay', 'time_delay_classical_control'):
        return special.add_op(c, o)
    kw = dict(affected_channels=list(o['channels']))
    kw.update(dict(delay=o['delay']) if o['kind'] == 'time_delay' else dict(classical_channel_for_delay=o['cc']))
    r = rng.random()
    if o['width'] == 1 and r < 0.5:
        mon.event('default_width')
    elif r < 0.3:
        kw['bandwidth'] = 1 / o['width']
        mon.event('bandwidth_argument')
    else:
        kw['pulse_width'] = o['width']
    getattr(c, o['kind'])(**kw)


def run_case(rng, mon, idx, tier):
    if idx % 900 == 7:
        return large(rng, mon)
    while True:
        sp = gen.spec(rng, max_dim=256, lengths=(2, 3, 3, 4, 4), channels=(2, 2, 3, 4, 2, 3, 4, 5), ncl=(0, 0))
        most, limit = 3, 150 if idx % 10 else 400
        if idx % 12 == 5:      # many photons in few channels
            sp = gen.spec(rng, max_dim=100, lengths=(5, 5, 6), channels=(2, 2, 3), ncl=(0, 0))
            most, limit = 5, 40
        sp['ncl'] = sp['nch'] + 1
        control, chans = sp['nch'], list(range(sp['nch']))
        states = p17.inputs(rng, sp, p17.NULL, most)
        for s in states:
            s.classical[control] = rng.choice([0, 0.4, -0.7, 1.5, 60.0, rng.uniform(-2, 2)])
        ops = special.linear(rng, sp, rng.randint(0, 2), p17.LINEAR)
        o = special.delay_op(rng, sp, ('time_delay', 'time_delay_classical_control'))
        if 'cc' in o:
            o['cc'] = control
        ops += [o] + special.linear(rng, sp, rng.randint(1, 3), p17.LINEAR)
        if photons.columns(sp, ops, states) <= limit:
            break
    ds = [o for o in ops if 'delay' in o['kind']]
    for s in states:
        nums = {sum(o) for o in s.amps}
        mon.event({0: 'vacuum', 1: 'single_photon', 2: 'two_photons', 3: 'three_photons'}.get(max(nums), 'many_photons'))
        mon.event('superpositions', len(s.amps) > 1)
        mon.event('different_photon_numbers', len(nums) > 1)
        mon.event('vacuum', 0 in nums)
        mon.event('weights_below_one', s.weight < 1)
    mon.event('several_states', len(states) > 1)
    mon.event('mixtures', len(states) > 1 and len({s.initial for s in states}) == 1)
    mon.event('reversed_notation', not sp['left'])
    mon.event('different_classical_values', len({s.classical[control] for s in states}) > 1 and any('cc' in o for o in ds))
    for o in ds:
        mon.event('delay:' + o['kind'])
        mon.event('zero_delay', o.get('delay') == 0)
        mon.event('long_delay', abs(o.get('delay', 0)) > 10)
    what = '%s on %s in %s' % (ops, [(s.initial, s.weight, gen.show(s.amps), s.classical) for s in states], sp)
    branches = [photons.from_state(s) for s in states]
    c = gen.circuit(sp)
    for o in ops:
        branches = photons.step(sp, o, branches)
        add(c, o, rng, mon)
    fin = dict(kind='measure', optical=chans, classical=chans)
    want = photons.histogram(photons.step(sp, fin, branches), chans, sp['L'])
    col = gen.collection(c, sp, states)
    before = gen.fingerprint(col)
    nodes = len(c.node_list)
    totals = {}
    for s in states:
        totals[s.initial] = totals.get(s.initial, 0) + s.weight
    # the split itself: weights of the interference groups
    upto = next(i for i, o in enumerate(ops) if 'delay' in o['kind'])
    if len(c.node_list) == len(ops):
        part = c.evaluate_circuit(col, nodes_to_be_evaluated=list(range(upto + 1)))
        seen = {}
        cc = CollectionOfStateColumns(collection_of_states=part)
        for ini, groups in cc.as_dictionary().items():
            for g in groups.values():
                seen.setdefault(ini, []).append(float(g.group_cumulative_probability))
        expected = {}
        for s in states:
            o = ops[upto]
            tau = float(s.classical[o['cc']]) if 'cc' in o else o['delay']
            share = math.exp(-math.log(2) * (tau / o['width']) ** 2)
            expected.setdefault(s.initial, []).extend([s.weight * share, s.weight * (1 - share)])
        mon.check(set(seen) == set(expected), what + ': initial states after the delay')
        for ini in expected:
            a, b = sorted([x for x in seen[ini] if x > 1e-9]), sorted([x for x in expected[ini] if x > 1e-9])
            mon.check(len(a) == len(b), lambda: '%s: parts of %s weigh %s, expected %s' % (what, ini, a, b))
            for x, y in zip(a, b):
                mon.close(x, y, TOL, lambda: '%s: weights of the parts of %s' % (what, ini))
            mon.event('weights_split')
    order = rng.sample(chans, len(chans))
    c.measure_optical_to_classical(order, order)
    r = c.evaluate_circuit(col)
    compare(mon, photons.reported(r, chans, sp), want, totals, what)
    mon.check(gen.fingerprint(col) == before and len(c.node_list) == nodes + 1, what + ': circuit or input collection changed')
    hists = []
    for long in (False, True):
        alt = [photons.from_state(s) for s in states]
        for o in ops:
            if 'delay' in o['kind']:
                if not long:
                    continue
                o = dict(kind='time_delay', channels=o['channels'], delay=1e6, width=1.0)
            alt = photons.step(sp, o, alt)
        hists.append(photons.histogram(photons.step(sp, fin, alt), chans, sp['L']))
    if all((s.classical[control] if 'cc' in o else o['delay']) == 0 for o in ds for s in states):
        mon.check(p17.total_variation(hists[0], want) < 1e-9, 'oracle at zero delay')
        plain, _ = special.build(sp, [o for o in ops if 'delay' not in o['kind']])
        plain.measure_optical_to_classical(order, order)
        compare(mon, photons.reported(plain.evaluate_circuit(col), chans, sp), want, totals, 'without the delay ' + what)
        mon.event('zero_delay_equals_no_delay')
    if p17.total_variation(*hists) > 0.02:
        mon.event('interference_mattered')
    if min(p17.total_variation(want, h) for h in hists) > 0.02:
        mon.event('overlap_mattered')
        mon.nontrivial(sp, [(o['kind'], o.get('channels'), o.get('delay'), o.get('width')) for o in ops], [sorted(s.amps) for s in states])
        mon.sample(dict(spec=sp, ops=[(o['kind'], o.get('channels'), o.get('delay'), o.get('width')) for o in ops], histogram=repr(want)[:500]))


def compare(mon, got, want, totals, what):
    mon.check(set(got) == set(want), lambda: '%s: initial states %s' % (what, sorted(got)))
    for ini in want:
        mon.close(sum(got[ini].values()), totals[ini], TOL, lambda: '%s: total probability of %s' % (what, ini), 'total')
        for k in set(got[ini]) | set(want[ini]):
            mon.close(got[ini].get(k, 0), want[ini].get(k, 0), TOL, lambda: '%s: probability of %s from %s' % (what, k, ini), 'probability')
            mon.event('probabilities_compared')


def large(rng, mon):
    """A superposition of more than a thousand components meets a delay."""
    sp = dict(L=33, nch=2, ncl=2, left=rng.random() < 0.5, full=False, thr=1e-12)
    occs = rng.sample(list(gen.notation(sp).basis()), rng.randint(1010, 1040))
    amps = {o: complex(len(occs) ** -0.5) for o in occs}
    c = gen.circuit(sp)
    tau = rng.uniform(0.2, 1.5)
    c.time_delay(affected_channels=[rng.randrange(2)], delay=tau, pulse_width=1)
    col = gen.collection(c, sp, [ref.RState(amps, [0, 0], 1.0, [], 'big')])
    out = CollectionOfStateColumns(collection_of_states=c.evaluate_circuit(col))
    share = math.exp(-math.log(2) * tau ** 2)
    groups = list(out.as_dictionary()['big'].values())
    what = 'delay %g of a superposition of %d components' % (tau, len(occs))
    mon.check(len(groups) == 2 and all(len(list(g.by_column())) == len(occs) for g in groups), what + ': groups or columns')
    for g, w in zip(sorted(groups, key=lambda g: g.group_cumulative_probability), sorted([share, 1 - share])):
        mon.close(float(g.group_cumulative_probability), w, TOL, what)
        mon.close(sum(abs(x.column_amplitude) ** 2 for x in g.by_column()), 1, 1e-3, what + ': amplitudes of the columns')
    mon.event('large_superpositions')
