"""P17: full time delay."""
import numpy as np

from mon import gen, photons, ref, special

ID = 'P17'
CASES = {'quick': 2200, 'thorough': 60000}
RULE = 'distinct by circuit shape, nodes with delays and widths, and inputs; non-trivial if partial overlap of wave packets mattered for an outcome'
REQUIRED_EVENTS = ['delay:time_delay_full', 'delay:time_delay_classical_control_full', 'delay_before_and_after', 'opposite_delays', 'delay_of_everything', 'zero_delay',
                   'long_delay', 'two_photons', 'three_photons', 'four_or_more_photons', 'four_photons_in_a_channel', 'single_photon', 'own_pulse_widths', 'set_pulse_width_everywhere', 'several_states', 'weights_below_one',
                   'different_photon_numbers', 'vacuum', 'reversed_notation', 'interference_mattered', 'partial_overlap_mattered', 'different_classical_values', 'superpositions']
MIN_DISTINCT = 30
ASSUMPTIONS = ['one to five photons', 'the delay is followed by linear optics', 'tolerance 4e-4']
TOL = 4e-4
LINEAR = ('half_wave_plate', 'quarter_wave_plate', 'wave_plate', 'mix_50_50', 'half_wave_plate_225', 'swap', 'phase', 'custom_optical', 'pbs', 'npbs_50_50', 'mix_generic')


NUMBER = {0: 'vacuum', 1: 'single_photon', 2: 'two_photons', 3: 'three_photons'}


def inputs(rng, sp, mon, most=3):
    """Few photons; superpositions, sometimes of different photon numbers."""
    cap = min(sp['L'] - 1, most)
    names = gen.initial_names(rng, 4)
    out = []
    for i in range(rng.choice([1, 1, 1, 2])):
        pool = [o for o in gen.notation(sp).basis() if sum(o) <= cap]
        n = rng.choice([1, 2, 2, 2, cap] if most < 4 else [cap, 4])
        if rng.random() < 0.85 or sp.get('fixed'):
            pool = [o for o in pool if sum(o) == min(n, cap)]
        occs = rng.sample(pool, min(len(pool), rng.choice([1, 1, 2, 3])))
        amps = np.array([complex(rng.gauss(0, 1), rng.gauss(0, 1)) for _ in occs])
        if rng.random() < 0.15:
            amps[rng.randrange(len(amps))] *= rng.choice([30, 300, 2000])
        if rng.random() < 0.1 and len(amps) > 1:     # a component that clean_up() set to zero
            amps[rng.randrange(1, len(amps))] = 0
        amps = amps / np.linalg.norm(amps) if len(occs) > 1 else [1 + 0j]
        out.append(ref.RState(dict(zip(occs, map(complex, amps))), [rng.choice([0, 1, 2, rng.uniform(-2, 2)]) for _ in range(sp['ncl'])],
                              rng.choice([1.0, round(rng.uniform(0.2, 1), 3)]), [], names[i]))
    if len(out) > 1:
        mon.event('several_states')
        if rng.random() < 0.4:      # a mixture
            for s in out:
                s.initial, s.weight = 'mix', s.weight / len(out)
            mon.event('mixtures')
    for s in out:
        nums = {sum(o) for o in s.amps}
        if len(s.amps) > 1:
            mon.event('superpositions')
        if len(nums) > 1:
            mon.event('different_photon_numbers')
        if 0 in nums:
            mon.event('vacuum')
        mon.event(NUMBER.get(max(nums), 'four_or_more_photons'))
        if s.weight < 1:
            mon.event('weights_below_one')
    return out


def program(rng, sp, mon, control):
    width = rng.choice([1.0, 1, 0.5, 2.0, rng.uniform(0.3, 3)])
    ops = special.linear(rng, sp, rng.randint(0, 2), LINEAR)
    own = rng.random() < 0.2
    if own:
        ops.append(dict(kind='set_pulse_width', channels=rng.sample(range(sp['nch']), rng.randint(1, sp['nch'] - 1)), width=rng.uniform(0.3, 3)))
        mon.event('own_pulse_widths')
    elif rng.random() < 0.3:
        ops.append(dict(kind='set_pulse_width', channels=rng.choice([None, list(range(sp['nch'])), []]), width=rng.uniform(0.3, 3)))
        mon.event('set_pulse_width_everywhere')
        if ops[-1]['channels'] != [] and rng.random() < 0.5:
            width = None
    for i in range(rng.choice([1, 1, 2, 3])):
        o = special.delay_op(rng, sp, ('time_delay_full', 'time_delay_full', 'time_delay_classical_control_full') if control else ('time_delay_full',))
        o['width'] = None if own else width
        if 'cc' in o:
            o['cc'] = control
        if rng.random() < 0.15:
            o['channels'] = list(range(sp['nch']))
            mon.event('delay_of_everything')
        ops.append(o)
        mon.event('delay:' + o['kind'])
        if o.get('delay') == 0:
            mon.event('zero_delay')
        if abs(o.get('delay', 0)) > 10:
            mon.event('long_delay')
        if i:
            mon.event('delay_before_and_after')
        if 'delay' in o and rng.random() < 0.15:
            ops.append(dict(o, delay=-o['delay'], channels=list(reversed(o['channels']))))
            mon.event('opposite_delays')
        ops += special.linear(rng, sp, rng.randint(1, 2), LINEAR)
        if width is not None and not own and rng.random() < 0.1:     # all widths at once, as every delay does
            width = rng.uniform(0.3, 3)
    return ops


def dull(ops, long):
    """The same program with all delays absent, or so long that nothing overlaps."""
    out, i = [], 0
    for o in ops:
        if 'delay' in o['kind']:
            i += 1
            if long:
                out.append(dict(kind='time_delay_full', channels=o['channels'], delay=1000.0 * 7 ** i, width=1.0))
        else:
            out.append(o)
    return out


def total_variation(x, y):
    return max([sum(abs(x[i].get(k, 0) - y[i].get(k, 0)) for k in set(x[i]) | set(y[i])) / 2 for i in x] or [0])


def run_case(rng, mon, idx, tier):
    while True:
        sp = gen.spec(rng, max_dim=256, lengths=(2, 3, 3, 4, 4), channels=(2, 2, 3, 4, 2, 3, 4, 5), ncl=(0, 0))
        most, limit = 3, 150 if idx % 10 else 500
        if idx % 12 == 7:      # many photons in few channels
            sp = gen.spec(rng, max_dim=100, lengths=(5, 5, 6), channels=(2, 2, 3), ncl=(0, 0))
            most, limit = 5, 20
        sp['ncl'] = sp['nch'] + 1
        states = inputs(rng, sp, NULL, most)
        control = sp['nch']
        ops = program(rng, sp, NULL, control)
        if photons.columns(sp, ops, states) <= limit:
            break
    # announce what was chosen
    for s in states:
        nums = {sum(o) for o in s.amps}
        mon.event(NUMBER.get(max(nums), 'four_or_more_photons'))
        mon.event('superpositions', len(s.amps) > 1)
        mon.event('different_photon_numbers', len(nums) > 1)
        mon.event('weights_below_one', s.weight < 1)
        mon.event('vacuum', 0 in nums)
        mon.event('four_photons_in_a_channel', any(x > 3 for o in s.amps for x in o))
    mon.event('several_states', len(states) > 1)
    mon.event('mixtures', len(states) > 1 and len({s.initial for s in states}) == 1)
    mon.event('different_classical_values', len({s.classical[control] for s in states}) > 1 and any('cc' in o for o in ops))
    mon.event('reversed_notation', not sp['left'])
    ds = [o for o in ops if 'delay' in o['kind']]
    for o in ds:
        mon.event('delay:' + o['kind'])
        mon.event('zero_delay', o.get('delay') == 0)
        mon.event('long_delay', abs(o.get('delay', 0)) > 10)
        mon.event('delay_of_everything', len(o['channels']) == sp['nch'])
    mon.event('delay_before_and_after', len(ds) > 1)
    mon.event('opposite_delays', any(x.get('delay') and x.get('delay') == -(y.get('delay') or 0) for x, y in zip(ds, ds[1:])))
    mon.event('own_pulse_widths', any(o['kind'] == 'set_pulse_width' and o['channels'] and len(o['channels']) < sp['nch'] for o in ops))
    mon.event('set_pulse_width_everywhere', any(o['kind'] == 'set_pulse_width' and (o['channels'] is None or len(o['channels']) == sp['nch']) for o in ops))

    chans = list(range(sp['nch']))
    what = '%s on %s in %s' % (ops, [(s.initial, s.weight, gen.show(s.amps), s.classical) for s in states], sp)
    branches = [photons.from_state(s) for s in states]
    for o in ops:
        branches = photons.step(sp, o, branches)
    if any(p < -1e-9 for b in branches for p in photons.probabilities(b.tensor, chans).values()):
        mon.event('unphysical_widths_skipped')      # documented: widths per channel can lead to non-physical results
        return
    fin = dict(kind='measure', optical=chans, classical=chans)
    want = photons.histogram(photons.step(sp, fin, branches), chans, sp['L'])
    c, _ = special.build(sp, ops)
    col = gen.collection(c, sp, states)
    before = gen.fingerprint(col)
    order = rng.sample(chans, len(chans))
    c.measure_optical_to_classical(order, order)
    r = c.evaluate_circuit(col)
    got = photons.reported(r, chans, sp)
    mon.check(set(got) == set(want), what + ': initial states')
    totals = {}
    for s in states:
        totals[s.initial] = totals.get(s.initial, 0) + s.weight
    for ini in want:
        mon.close(sum(got[ini].values()), totals[ini], TOL, lambda: '%s: total probability of %s' % (what, ini), 'total')
        for k in set(got[ini]) | set(want[ini]):
            mon.close(got[ini].get(k, 0), want[ini].get(k, 0), TOL, lambda: '%s: probability of %s from %s' % (what, k, ini), 'probability')
            mon.event('probabilities_compared')
            mon.check(got[ini].get(k, 0) >= -1e-6, what + ': negative probability')
        seen = {sum(k) for k, p in got[ini].items() if p > 1e-6}
        mon.check(seen <= {sum(o) for s in states if s.initial == ini for o in s.amps}, lambda: '%s: photon numbers %s' % (what, seen))
    mon.check(gen.fingerprint(col) == before, what + ': the input collection changed')
    hists = []
    for long in (False, True):
        alt = [photons.from_state(s) for s in states]
        for o in dull(ops, long):
            alt = photons.step(sp, o, alt)
        hists.append(photons.histogram(photons.step(sp, fin, alt), chans, sp['L']))
    if total_variation(hists[0], hists[1]) > 0.02:
        mon.event('interference_mattered')
    if min(total_variation(want, h) for h in hists) > 0.02:
        mon.event('partial_overlap_mattered')
        mon.nontrivial(sp, [(o['kind'], o.get('channels'), o.get('delay'), o.get('width')) for o in ops], [sorted(s.amps) for s in states])
        mon.sample(dict(spec=sp, ops=[(o['kind'], o.get('channels'), o.get('delay'), o.get('width')) for o in ops], histogram=repr(want)[:500]))


class _Null:
    def event(self, *a):
        pass


NULL = _Null()
