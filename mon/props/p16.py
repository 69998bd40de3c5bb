"""P16: bridges and compound circuits."""
import numpy as np

from mon import gen, ref, special

import fock_state_circuit as fsc

ID = 'P16'
CASES = {'quick': 1600, 'thorough': 40000}
RULE = 'distinct by shapes of the circuits in the chain, their operations and the inputs; non-trivial if at least two circuits changed the state'
REQUIRED_EVENTS = ['bridged', 'independent_compounds', 'compound', 'manual', 'more_channels', 'fewer_channels', 'fewer_channels_made_mixture', 'more_classical', 'fewer_classical',
                   'no_classical_left', 'length_changes', 'notation_changes', 'repeated_evaluation', 'refreshed', 'circuit_used_twice', 'list_changed', 'parts_on_their_own',
                   'measured_before_bridge', 'all_basis_states_as_input', 'empty_circuits', 'three_or_more_circuits', 'cleared', 'special_nodes']
MIN_DISTINCT = 30
ASSUMPTIONS = ['states fit in every circuit of the chain', 'tolerance 4e-4']
TOL = 4e-4


def hand_over(mon, states, a, b):
    """What a bridge between circuits of shape a and b does to a mixture."""
    out = []
    for s in states:
        cl = (list(s.classical) + [0] * b['ncl'])[:b['ncl']]
        if b['nch'] >= a['nch']:
            n = s.copy()
            n.amps = {o + (0,) * (b['nch'] - a['nch']): x for o, x in s.amps.items()}
            n.classical = cl
            out.append(n)
            continue
        groups = {}
        for o, x in s.amps.items():
            groups.setdefault(o[b['nch']:], {})[o[:b['nch']]] = x
        if len(groups) > 1:
            mon.event('fewer_channels_made_mixture')
        for amps in groups.values():
            p = sum(abs(x) ** 2 for x in amps.values())
            if p <= 1e-18:
                continue
            n = s.copy()
            n.amps = {o: x / p ** 0.5 for o, x in amps.items()}
            n.weight, n.classical = s.weight * p, list(cl)
            out.append(n)
    return out


def mixture(states):
    """Per event: unnormalised density matrix (sparse), weight and recorded probabilities."""
    out = {}
    for s in states:
        k = s.key() + (tuple(ref.canon(v) for v in s.classical),)
        e = out.setdefault(k, [{}, 0.0, np.zeros(len(s.history))])
        items = [(o, x) for o, x in s.amps.items() if abs(x) > 1e-12]
        for o1, x1 in items:
            for o2, x2 in items:
                e[0][(o1, o2)] = e[0].get((o1, o2), 0) + s.weight * x1 * x2.conjugate()
        e[1] += s.weight
        e[2] = e[2] + s.weight * np.array([p for _, p in s.history])
    return out


def same(mon, got, want, what):
    g, w = mixture(got), mixture(want)
    for x, y in ((g, w), (w, g)):
        for k in list(x):
            if k not in y and x[k][1] < TOL:
                del x[k]
    mon.check(set(g) == set(w), lambda: '%s: events %s, expected %s' % (what, sorted(map(str, g))[:8], sorted(map(str, w))[:8]))
    for k in w:
        mon.close(g[k][1], w[k][1], TOL, lambda: '%s: weight of %s' % (what, k), 'weight')
        d = ref.amp_distance(g[k][0], w[k][0])
        mon.maximum('max_dev_density', d)
        mon.check(d <= TOL, lambda: '%s: state for %s is %s, expected %s' % (what, k, gen.show(g[k][0]), gen.show(w[k][0])))
        mon.check(np.abs(g[k][2] - w[k][2]).max(initial=0) <= TOL, lambda: '%s: recorded probabilities of %s' % (what, k))
        mon.event('mixtures_compared')
    for s in got:
        mon.close(s.norm2(), 1, TOL, what + ': norm')


def shapes(rng, n):
    same_length = rng.random() < 0.5
    sps = []
    for _ in range(n):
        while True:
            sp = gen.spec(rng, max_dim=110, lengths=(2, 3, 3, 4, 5, 11), channels=(2, 2, 3, 4, 2, 3, 4, 5, 6), ncl=(0, 3))
            if sps and same_length:
                sp['L'] = sps[0]['L']
            if sps and rng.random() < 0.4:
                sp = dict(sps[-1])
            if sps and rng.random() < 0.5:
                sp['left'] = sps[0]['left']
            if sp['L'] ** sp['nch'] <= 130:
                break
        sps.append(sp)
    return sps, same_length


def program(rng, sp, same_length, few, mon):
    kinds = ref.OPTICAL + ('measure', 'set_classical', 'classical_function', 'phase_cc', 'wave_plate_cc')
    if same_length:
        kinds += ('shift', 'c_shift_direct')
    n = rng.choice([0, 1, 2, 2, 3, 4])
    ops = []
    for _ in range(n):
        o = gen.op(rng, sp, kinds)
        ops.append(o)
        if o['kind'] in ('wave_plate', 'half_wave_plate', 'wave_plate_cc') and few and rng.random() < 0.3 and sp['nch'] <= 3:
            o['kind'] = {'wave_plate': 'ham_plate', 'half_wave_plate': 'half_wave_plate', 'wave_plate_cc': 'ham_plate_cc'}[o['kind']]
            mon.event('special_nodes')
    if not ops:
        mon.event('empty_circuits')
    return ops


def plain(o):
    return dict(o, kind=o['kind'].replace('ham_plate', 'wave_plate'))


def expected(rng, mon, chain, states):
    cur, last = states, None
    for sp, ops in chain:
        if last is not None:
            if any(s.history for s in cur):
                mon.event('measured_before_bridge')
            cur = hand_over(mon, cur, last, sp)
        for o in ops:
            cur = ref.step(sp, plain(o), cur)
        last = sp
    return cur


def manual(rng, mon, chain, states):
    """The parts one after the other through the public interface; None if that has no way to express it."""
    sp0 = chain[0][0]
    c, _ = special.build(sp0, chain[0][1])
    col = c.evaluate_circuit(gen.collection(c, sp0, states))
    for (a, _), (b, ops) in zip(chain, chain[1:]):
        if a['left'] != b['left'] or (a['ncl'] and not b['ncl']):
            return None
        col = col.copy()
        if b['nch'] > a['nch']:
            col.extend(extra_optical_channels=b['nch'] - a['nch'])
        elif b['nch'] < a['nch']:
            col.reduce(optical_channels_to_keep=list(range(b['nch'])))
        if b['ncl'] > a['ncl']:
            col.extend(extra_classical_channels=b['ncl'] - a['ncl'])
        elif b['ncl'] < a['ncl']:
            col.reduce(classical_channels_to_keep=list(range(b['ncl'])))
        col.adjust_length_of_fock_state(b['L'])
        c, _ = special.build(b, ops)
        col = c.evaluate_circuit(col)
    return col


def run_case(rng, mon, idx, tier):
    sps, same_length = shapes(rng, rng.choice([1, 2, 2, 3, 3, 4]))
    if len(sps) > 2:
        mon.event('three_or_more_circuits')
    sp0, low = sps[0], min(sp['L'] for sp in sps)
    default_input = idx % 8 == 0 and sp0['L'] ** sp0['nch'] <= 32 and low == sp0['L']
    if default_input and not same_length:
        default_input = all(sp['L'] > (sp0['L'] - 1) * sp0['nch'] for sp in sps[1:])
    chain = [(sp, program(rng, sp, same_length, not (same_length or default_input), mon)) for sp in sps]
    note = gen.notation(sp0)
    if default_input:
        states = [ref.RState({o: 1 + 0j}, [0] * sp0['ncl'], 1.0, [], note.name(o)) for o in note.basis()]
        mon.event('all_basis_states_as_input')
    elif same_length:
        states = gen.rstates(rng, sp0, weights=True)
    else:
        states = special.low_states(rng, sp0, low - 1, components=4)
    if sp0['ncl'] and rng.random() < 0.4 and not default_input:
        for s in states:
            s.history.append((list(s.classical), 0.5))
    for a, b in zip(sps, sps[1:]):
        for name, key in (('channels', 'nch'), ('classical', 'ncl')):
            if b[key] > a[key]:
                mon.event('more_' + name)
            elif b[key] < a[key]:
                mon.event('fewer_' + name)
        if a['ncl'] and not b['ncl']:
            mon.event('no_classical_left')
        if a['L'] != b['L']:
            mon.event('length_changes')
        if a['left'] != b['left']:
            mon.event('notation_changes')
    want = expected(rng, mon, chain, states)
    what = 'chain %s on %s' % ([(sp, ops) for sp, ops in chain], [(s.initial, gen.show(s.amps), s.classical) for s in states[:4]])
    last = sps[-1]
    parts = [special.build(sp, ops)[0] for sp, ops in chain]
    col = gen.collection(parts[0], sp0, states)
    before = gen.fingerprint(col)
    ev = (lambda x: x.evaluate_circuit()) if default_input else (lambda x: x.evaluate_circuit(col))

    def result(r):
        mon.check(r is not None, what + ': no result')
        mon.check(r._no_of_optical_channels == last['nch'] and r._no_of_classical_channels == last['ncl'] and
                  r._length_of_fock_state == last['L'], what + ': shape of the resulting collection')
        return gen.observe(r, last, mon)

    if rng.random() < 0.5:      # compound circuit, the parts stay as they are
        mon.event('compound')
        comp = fsc.CompoundFockStateCircuit(parts if rng.random() < 0.5 else list(parts), compound_circuit_name=rng.choice([None, 'chain']))
        sizes = [len(p.node_list) for p in parts]
        same(mon, result(ev(comp)), want, 'compound ' + what)
        if rng.random() < 0.5:
            comp.refresh()
            mon.event('refreshed')
            same(mon, result(ev(comp)), want, 'refreshed compound ' + what)
        if rng.random() < 0.4:
            same(mon, result(ev(comp)), want, 'second evaluation of compound ' + what)
            mon.event('repeated_evaluation')
        if rng.random() < 0.2:
            comp.clear()
            comp.refresh()
            mon.event('cleared')
            same(mon, result(ev(comp)), want, 'cleared and refreshed compound ' + what)
        mon.check([len(p.node_list) for p in parts] == sizes and comp.list_of_circuits == parts, what + ': parts of the compound circuit changed')
        if rng.random() < 0.4:  # the parts by themselves
            i = rng.randrange(len(parts))
            spi, opsi = chain[i]
            alone = special.low_states(rng, spi, spi['L'] - 1)
            w = alone
            for o in opsi:
                w = ref.step(spi, plain(o), w)
            same(mon, gen.observe(parts[i].evaluate_circuit(gen.collection(parts[i], spi, alone)), spi, mon), w, 'part %d on its own of %s' % (i, what))
            mon.event('parts_on_their_own')
        r = rng.random()
        new = None
        if r < 0.2 and same_length:     # the last circuit once more
            new = chain + [chain[-1]]
            comp.list_of_circuits.append(parts[-1])
            mon.event('circuit_used_twice')
        elif r < 0.35 and len(parts) > 1:
            new = chain[:-1]
            comp.list_of_circuits.pop()
            mon.event('list_changed')
        elif r < 0.5:
            o = gen.op(rng, last, ref.OPTICAL)
            new = chain[:-1] + [(last, chain[-1][1] + [o])]
            special.add_op(parts[-1], o)
            mon.event('list_changed')
        if new:
            comp.refresh()
            r = ev(comp)
            if r is not None:
                same(mon, gen.observe(r, new[-1][0], mon), expected(rng, mon, new, states), 'changed list, now %s' % new + what)
        # compound circuits that start empty are filled one by one, and do not know of each other
        empty, other = fsc.CompoundFockStateCircuit(), fsc.CompoundFockStateCircuit()
        mon.check(not empty.list_of_circuits and not other.list_of_circuits, 'a new compound circuit is not empty')
        empty.list_of_circuits.append(parts[0])
        empty.refresh()
        mon.check(not other.list_of_circuits and not fsc.CompoundFockStateCircuit().list_of_circuits, 'compound circuits share the list of their circuits')
        mon.event('independent_compounds')
    else:
        mon.event('bridged')
        for a, b in zip(parts, parts[1:]):
            a.bridge(next_fock_state_circuit=b) if rng.random() < 0.5 else a.bridge(b)
        same(mon, result(ev(parts[0])), want, 'bridged ' + what)
        if rng.random() < 0.4:
            same(mon, result(ev(parts[0])), want, 'second evaluation of bridged ' + what)
            mon.event('repeated_evaluation')
    if not default_input:
        mon.check(gen.fingerprint(col) == before, what + ': the input collection changed')
        m = manual(rng, mon, chain, states)
        if m is not None:
            same(mon, gen.observe(m, last, mon), want, 'manual ' + what)
            mon.event('manual')
    if sum(1 for _, ops in chain if ops) > 1:
        mon.nontrivial([(sp['L'], sp['nch'], sp['ncl'], sp['left'], [o['kind'] for o in ops]) for sp, ops in chain], [len(s.amps) for s in states])
        mon.sample(dict(chain=[(sp, [o['kind'] for o in ops]) for sp, ops in chain]))
