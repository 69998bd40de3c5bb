"""P19: measurement of photon-resolved states."""
import collections

from mon import gen, photons, special
from mon.props import p17

from fock_state_circuit.temporal_and_spectral_gate_functionality.collection_of_state_columns import CollectionOfStateColumns
from fock_state_circuit.temporal_and_spectral_gate_functionality.temporal_functions import photon_probability_function

ID = 'P19'
CASES = {'quick': 2000, 'thorough': 60000}
RULE = 'distinct by circuit shape, nodes with delays and measured channels, and inputs; non-trivial if a measurement of part of the channels left something to be learned later'
REQUIRED_EVENTS = ['many_photons', 'partial_measurement', 'full_measurement', 'single_channel', 'several_measurements', 'gates_between_measurements', 'delay_between_measurements',
                   'classical_between_measurements', 'permuted_channels', 'same_channel_twice', 'overwritten_classical', 'quick_delay', 'full_delay', 'report_of_unmeasured', 'history_compared',
                   'two_photons', 'three_photons', 'superpositions', 'different_photon_numbers', 'vacuum', 'mixtures', 'several_states', 'weights_below_one', 'reversed_notation',
                   'partial_overlap_mattered', 'outcome_controls_delay', 'earlier_plain_measurement', 'plain_after_delay_of_nothing']
MIN_DISTINCT = 40
ASSUMPTIONS = ['up to five photons', 'tolerance 4e-4 on probabilities', 'outcomes below 1e-3 of the weight are not required to be listed']
TOL = 4e-4


def program(rng, sp, quick):
    """Linear optics, a delay, and measurements with whatever may come in between."""
    n, control = sp['nch'], sp['nch']
    ops = special.linear(rng, sp, rng.randint(0, 2), p17.LINEAR)
    if rng.random() < 0.1:
        ops.append(measurement(rng, sp))
    width = rng.choice([1.0, 0.5, rng.uniform(0.3, 3)])

    def delay(kinds):
        o = special.delay_op(rng, sp, kinds)
        o['width'] = width
        if 'cc' in o:
            o['cc'] = rng.choice([control, rng.randrange(n)])
        return o
    ops.append(delay(('time_delay', 'time_delay_classical_control') if quick else ('time_delay_full', 'time_delay_full', 'time_delay_classical_control_full')))
    ops += special.linear(rng, sp, rng.randint(1, 3), p17.LINEAR)
    for i in range(rng.choice([1, 1, 2, 2, 3])):
        ops.append(measurement(rng, sp))
        for _ in range(rng.choice([0, 1, 1])):
            r = rng.random()
            if r < 0.5:
                ops += special.linear(rng, sp, 1, p17.LINEAR)
            elif r < 0.75:
                ops.append(gen.op(rng, sp, ('set_classical',)))
            elif not quick:
                ops.append(delay(('time_delay_full', 'time_delay_classical_control_full')))
                ops += special.linear(rng, sp, 1, p17.LINEAR)
    return ops


def measurement(rng, sp):
    n = rng.choice([1, 1, sp['nch'] - 1, sp['nch']])
    return dict(kind='measure', optical=rng.sample(range(sp['nch']), n), classical=rng.sample(range(sp['nch']), n))


def parts(mon, col, what):
    """Interference groups as (initial state, weight, classical values, history), the same for all states of the group."""
    out = []
    cc = CollectionOfStateColumns(collection_of_states=col)
    for ini, groups in cc.as_dictionary().items():
        for g in groups.values():
            seen = {(tuple(s.classical_channel_values), tuple((tuple(m['measurement_results']), float(m['probability'])) for m in s.measurement_results)) for s in g.by_state()}
            mon.check(len(seen) == 1, lambda: '%s: classical values or histories differ within an interference group: %s' % (what, seen))
            cl, hist = seen.pop()
            out.append((ini, float(g.group_cumulative_probability), cl, hist))
    return out


def collect(groups, digits=9):
    """Weight per initial state and list of recorded results, with the recorded probabilities."""
    out = {}
    for ini, w, cl, hist in groups:
        key = (ini, tuple(round(float(v), digits) for v in cl), tuple(tuple(round(float(v), digits) for v in m) for m, _ in hist))
        out.setdefault(key, []).append((w, [p for _, p in hist]))
    return out


def run_case(rng, mon, idx, tier):
    while True:
        sp = gen.spec(rng, max_dim=256, lengths=(2, 3, 3, 4, 4), channels=(2, 2, 3, 4, 2, 3, 4, 5), ncl=(0, 0))
        most, limit = 3, 60 if idx % 10 else 250
        if idx % 12 == 5:      # many photons in few channels
            sp = gen.spec(rng, max_dim=100, lengths=(5, 5, 6), channels=(2, 2, 3), ncl=(0, 0))
            most, limit = 5, 20
        sp['ncl'] = sp['nch'] + 1
        states = p17.inputs(rng, sp, p17.NULL, most)
        quick = rng.random() < 0.35
        ops = program(rng, sp, quick)
        if photons.columns(sp, ops, states) <= limit:
            break
    chans = list(range(sp['nch']))
    for s in states:
        nums = {sum(o) for o in s.amps}
        mon.event({0: 'vacuum', 1: 'single_photon', 2: 'two_photons', 3: 'three_photons'}.get(max(nums), 'many_photons'))
        mon.event('superpositions', len(s.amps) > 1)
        mon.event('different_photon_numbers', len(nums) > 1)
        mon.event('vacuum', 0 in nums)
        mon.event('weights_below_one', s.weight < 1)
    mon.event('several_states', len(states) > 1)
    mon.event('mixtures', len(states) > 1 and len({s.initial for s in states}) == 1)
    mon.event('reversed_notation', not sp['left'])
    mon.event('quick_delay' if quick else 'full_delay')
    kinds = [o['kind'] for o in ops]
    ms = [i for i, k in enumerate(kinds) if k == 'measure']
    ds = [i for i, k in enumerate(kinds) if 'delay' in k]
    mon.event('several_measurements', len(ms) > 1)
    mon.event('earlier_plain_measurement', ms[0] < ds[0])
    written = set()
    for i in ms:
        o = ops[i]
        mon.event('partial_measurement' if len(o['optical']) < sp['nch'] else 'full_measurement')
        mon.event('single_channel', len(o['optical']) == 1)
        mon.event('permuted_channels', o['optical'] != o['classical'])
        mon.event('overwritten_classical', bool(written & set(o['classical'])))
        written |= set(o['classical'])
    for x, y in zip(ms, ms[1:]):
        mon.event('gates_between_measurements', any(k in p17.LINEAR for k in kinds[x + 1:y]))
        mon.event('delay_between_measurements', any('delay' in k for k in kinds[x + 1:y]))
        mon.event('classical_between_measurements', 'set_classical' in kinds[x + 1:y])
        mon.event('same_channel_twice', y == x + 1 and bool(set(ops[x]['optical']) & set(ops[y]['optical'])))
    for i in ds:
        mon.event('outcome_controls_delay', 'cc' in ops[i] and any(j < i and ops[i]['cc'] in ops[j]['classical'] for j in ms))
        mon.event('plain_after_delay_of_nothing', ops[i].get('delay') == 0)

    what = '%s on %s in %s' % (ops, [(s.initial, s.weight, gen.show(s.amps), s.classical) for s in states], sp)
    branches = [photons.from_state(s) for s in states]
    totals = collections.Counter()
    for s in states:
        totals[s.initial] += s.weight
    c, history = gen.circuit(sp), []
    for o in ops:
        branches = photons.step(sp, o, branches)
        history.append(branches)
        special.add_op(c, o)
    if len(c.node_list) != len(ops):
        mon.event('nodes_without_own_number')
    col = gen.collection(c, sp, states)
    out = c.evaluate_circuit(col)
    got = collect(parts(mon, out, what))
    want = collect([(b.initial, b.weight, b.classical, b.history) for b in branches])
    for key in set(got) | set(want):
        a, b = sum(w for w, _ in got.get(key, [])), sum(w for w, _ in want.get(key, []))
        mon.close(a, b, TOL, lambda: '%s: weight of results %s' % (what, key))
        if b > 1e-2 and len(want[key]) == 1 == len(got[key]):
            for p, q in zip(got[key][0][1], want[key][0][1]):
                mon.close(p, q, 4e-3, lambda: '%s: probabilities recorded in the history of %s' % (what, key))
            mon.event('history_compared')
    for ini, total in totals.items():
        mon.close(sum(w for k, l in got.items() for w, _ in l if k[0] == ini), total, TOL, lambda: '%s: total weight of %s' % (what, ini))
    # now everything is measured
    fin = dict(kind='measure', optical=chans, classical=chans)
    final = photons.histogram(photons.step(sp, fin, branches), chans, sp['L'])
    d = gen.circuit(sp)
    order = rng.sample(chans, len(chans))
    d.measure_optical_to_classical(order, order)
    hist = photons.reported(d.evaluate_circuit(out), chans, sp)
    same(mon, hist, final, what + ', then all channels measured')
    if out.is_photon_resolved():
        report(mon, out, sp, branches, chans, what)
    if p17_partial(sp, ops, states, final):
        mon.event('partial_overlap_mattered')
    last = history[ms[0]]
    if len(last) > len(history[ms[0] - 1] if ms[0] else states) and any(len(photons.probabilities(b.tensor, chans)) > 1 for b in last):
        mon.nontrivial(sp, [(o['kind'], o.get('channels'), o.get('delay'), o.get('optical'), o.get('classical')) for o in ops], [sorted(s.amps) for s in states])
        mon.sample(dict(spec=sp, ops=[(o['kind'], o.get('channels'), o.get('delay'), o.get('optical'), o.get('classical')) for o in ops], results=repr(got)[:600]))


def report(mon, col, sp, branches, chans, what):
    """What is reported about the outcome of a measurement that has not been made."""
    cc = CollectionOfStateColumns(collection_of_states=col)
    cc.split()
    cc.single_photon_states()
    cc.photon_probability_function = photon_probability_function
    digits = len(str(sp['L'] - 1))
    got, want = collections.Counter(), collections.Counter()
    for ini, groups in cc.as_dictionary().items():
        for g in groups.values():
            for name, p in g.total_probability_for_group_all_outcomes().items():
                vals = [int(name[i:i + digits]) for i in range(0, len(name), digits)]
                got[ini, tuple(vals if sp['left'] else vals[::-1])] += float(p) * float(g.group_cumulative_probability)
    for b in branches:
        for k, p in photons.probabilities(b.tensor, chans).items():
            want[b.initial, k] += b.weight * p
    for k in set(got) | set(want):
        mon.close(got[k], want[k], TOL, lambda: '%s: reported probability of %s without measuring' % (what, k))
    mon.event('report_of_unmeasured')


def same(mon, got, want, what):
    mon.check(set(got) == set(want), lambda: '%s: initial states %s' % (what, sorted(got)))
    for ini in want:
        for k in set(got[ini]) | set(want[ini]):
            mon.close(got[ini].get(k, 0), want[ini].get(k, 0), TOL, lambda: '%s: probability of %s from %s' % (what, k, ini))


def p17_partial(sp, ops, states, final):
    for long in (False, True):
        alt = [photons.from_state(s) for s in states]
        for i, o in enumerate(ops):
            if 'delay' in o['kind']:
                if not long:
                    continue
                o = dict(kind='time_delay_full', channels=o['channels'], delay=1000.0 * 7 ** i, width=1.0)
            alt = photons.step(sp, o, alt)
        h = photons.histogram(photons.step(sp, dict(kind='measure', optical=list(range(sp['nch'])), classical=list(range(sp['nch']))), alt), range(sp['nch']), sp['L'])
        if p17.total_variation(h, final) < 0.02:
            return False
    return True
