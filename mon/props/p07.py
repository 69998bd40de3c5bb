"""P07: classically controlled elements, per state."""
from mon import gen, ref, special

import fock_state_circuit as fsc

ID = 'P07'
CASES = {'quick': 5500, 'thorough': 80000}
RULE = ('distinct by circuit shape, operations and control values; non-trivial if two states of one collection held different control '
        'values when the controlled element was reached')
REQUIRED_EVENTS = ['controlled_elements_monitored', 'fixed_twins_compared', 'different_controls_in_one_mixture', 'feed_forward', 'partly_shared_controls', 'ham_plate_cc',
                   'time_delay_classical_control', 'time_delay_classical_control_full', 'delays_differ_in_one_mixture']
MIN_DISTINCT = 30
ASSUMPTIONS = ['control values are plain numbers in radians']
TOL = 3e-4
CONTROLLED = ('phase_cc', 'wave_plate_cc')


def share(rng, mon, states):
    """Let the states have some of their classical values in common."""
    if len(states) > 1 and rng.random() < 0.5:
        for s in states[1:]:
            for k in range(len(s.classical)):
                if rng.random() < 0.5:
                    s.classical[k] = states[0].classical[k]
        mon.event('partly_shared_controls')


def plate_case(rng, mon):
    """Wave plates from a Hamiltonian."""
    sp = gen.spec(rng, max_dim=150, lengths=(2, 3, 4), ncl=(2, 4))
    states = gen.rstates(rng, sp, count=rng.randint(2, 4), weights=True)
    share(rng, mon, states)
    a, b = rng.sample(range(sp['nch']), 2)
    o = dict(kind='ham_plate_cc', a=a, b=b, c_theta=rng.randrange(sp['ncl']), c_phi=rng.randrange(sp['ncl']))
    c, _ = special.build(sp, [o])
    got = gen.observe(c.evaluate_circuit(gen.collection(c, sp, states)), sp, mon)
    mon.check(len(got) == len(states), lambda: '%s: %d states became %d' % (o, len(states), len(got)))
    for s, g in zip(states, got):
        f, _ = special.build(sp, [dict(kind='ham_plate', a=a, b=b, theta=s.classical[o['c_theta']], phi=s.classical[o['c_phi']])])
        twin = gen.observe(f.evaluate_circuit(gen.collection(f, sp, [s])), sp, mon)[0]
        what = '%s on %s with classical values %s' % (o, gen.show(s.amps), s.classical)
        mon.check(g.initial == s.initial and g.classical == s.classical and abs(g.weight - s.weight) < 1e-9 and g.history == s.history,
                  lambda: what + ': weight, classical values, history or origin changed')
        mon.check(ref.amp_distance(g.amps, twin.amps) <= TOL,
                  lambda: '%s: %s, the fixed element gives %s' % (what, gen.show(g.amps), gen.show(twin.amps)))
    mon.event('ham_plate_cc')
    mon.nontrivial(sp, o, [s.classical for s in states])


def results(col):
    """Weight per initial state and recorded values."""
    out = {}
    for ini, groups in fsc.CollectionOfStateColumns(collection_of_states=col).as_dictionary().items():
        for g in groups.values():
            key = (ini, tuple(round(float(v), 9) for v in next(iter(g.by_state())).classical_channel_values))
            out[key] = out.get(key, 0) + float(g.group_cumulative_probability)
    return out


def delay_case(rng, mon):
    """Time delays, seen in the results of a measurement."""
    sp = gen.spec(rng, max_dim=64, lengths=(3, 3, 4), channels=(2, 2, 3), ncl=(0, 0))
    sp['ncl'] = sp['nch'] + 2
    names, states = gen.initial_names(rng, 3), []
    for i in range(rng.randint(2, 3)):
        occ = [0] * sp['nch']
        for k in rng.sample(range(sp['nch']), 2):
            occ[k] = 1
        states.append(ref.RState({tuple(occ): 1 + 0j}, [0] * sp['nch'] + [rng.choice([0, 0.4, -0.7, 1.5, rng.uniform(-2, 2)]) for _ in range(2)],
                                 round(rng.uniform(0.1, 1), 3), [], names[i]))
    share(rng, mon, states)
    kind = rng.choice(['time_delay_classical_control', 'time_delay_classical_control_full'])
    a, b = rng.sample(range(sp['nch']), 2)
    o = dict(kind=kind, channels=[a], cc=sp['nch'] + rng.randint(0, 1), width=rng.choice([1.0, 0.5, rng.uniform(0.5, 2)]))
    after = [dict(kind='mix_50_50', a=a, b=b), dict(kind='measure', optical=list(range(sp['nch'])), classical=list(range(sp['nch'])))]
    first = special.linear(rng, sp, 1)
    late = [dict(kind='set_classical', channels=[o['cc']], values=[0.25])] if rng.random() < 0.4 else []
    c, _ = special.build(sp, first + [o] + late + after)
    got = results(c.evaluate_circuit(gen.collection(c, sp, states)))
    want = {}
    for s in states:
        f, _ = special.build(sp, first + [dict(o, kind=kind.replace('_classical_control', ''), delay=s.classical[o['cc']])] + late + after)
        for k, w in results(f.evaluate_circuit(gen.collection(f, sp, [s]))).items():
            want[k] = want.get(k, 0) + w
    what = '%s (%s) on %s' % (o, late, [(gen.show(s.amps), s.classical, s.weight) for s in states])
    for k in set(got) | set(want):
        mon.check(abs(got.get(k, 0) - want.get(k, 0)) < TOL, lambda: '%s: %s with weight %s, fixed delays give %s' % (what, k, got.get(k, 0), want.get(k, 0)))
    mon.event(kind)
    if len({s.classical[o['cc']] for s in states}) > 1:
        mon.event('delays_differ_in_one_mixture')
        mon.nontrivial(sp, o, [s.classical for s in states])


def run_case(rng, mon, idx, tier):
    if idx % 5 == 3:
        return (plate_case if idx % 10 == 3 else delay_case)(rng, mon)
    sp = gen.spec(rng, max_dim=260, lengths=(2, 3, 4, 5, 11), ncl=(1, 4))
    ops = []
    for _ in range(rng.randint(1, 3)):
        for _ in range(rng.randint(0, 2)):
            ops.append(gen.op(rng, sp, rng.choice([ref.OPTICAL, ('measure',), ('set_classical', 'classical_function')])))
        ops.append(gen.op(rng, sp, CONTROLLED))
    states = gen.rstates(rng, sp, count=rng.randint(1, 4), weights=True)
    share(rng, mon, states)
    c, groups = gen.build(sp, ops)
    cur = gen.collection(c, sp, states)
    different, measured = False, False
    for pos, (o, nodes) in enumerate(zip(ops, groups)):
        nxt = c.evaluate_circuit(cur, nodes)
        measured = measured or o['kind'] == 'measure'
        if o['kind'] in CONTROLLED:
            mon.event('feed_forward' if measured else 'no_feed_forward')
            before = {i: gen.observe_state(s, sp, mon) for i, s in cur.items()}
            after = {i: gen.observe_state(s, sp, mon) for i, s in nxt.items()}
            chans = [o['cc']] if o['kind'] == 'phase_cc' else [o['c_theta'], o['c_phi']]
            seen = {tuple(float(s.classical[k]) for k in chans) for s in before.values()}
            if len(seen) > 1:
                different = True
                mon.event('different_controls_in_one_mixture')
            mon.check(len(before) == len(after), lambda: '%s: %d states became %d' % (o, len(before), len(after)))
            for (ib, b), (ia, a) in zip(before.items(), after.items()):
                what = '%s on %s with classical values %s' % (o, gen.show(b.amps), b.classical)
                mon.check(a.initial == b.initial and a.classical == b.classical and a.weight == b.weight and a.history == b.history,
                          lambda: what + ': weight, classical values, history or origin changed')
                want = ref.step(sp, o, [b])[0]
                if b.weight < 1e-6:
                    continue
                d = ref.amp_distance(a.amps, want.amps)
                mon.maximum('max_dev_amplitude', d)
                mon.check(d <= TOL, lambda: '%s: %s, expected %s' % (what, gen.show(a.amps), gen.show(want.amps)))
                mon.event('controlled_elements_monitored')
                # the fixed element with these angles
                if rng.random() < 0.5:
                    fixed = (dict(kind='phase', ch=o['ch'], phi=b.classical[o['cc']]) if o['kind'] == 'phase_cc' else
                             dict(kind='wave_plate', a=o['a'], b=o['b'], theta=b.classical[o['c_theta']], phi=b.classical[o['c_phi']]))
                    cf, _ = gen.build(sp, [fixed])
                    twin = gen.observe(cf.evaluate_circuit(gen.collection(cf, sp, [b])), sp, mon)
                    d = ref.amp_distance(a.amps, twin[0].amps)
                    mon.check(d <= TOL, lambda: '%s: %s, the fixed element gives %s' % (what, gen.show(a.amps), gen.show(twin[0].amps)))
                    mon.event('fixed_twins_compared')
            # other states in the mixture make no difference
            if len(before) > 1 and rng.random() < 0.5:
                k = rng.choice(list(cur.keys()))
                alone = cur.copy(empty_template=True)
                alone.add_state(cur[k].copy(), identifier=k)
                one = gen.observe(c.evaluate_circuit(alone, nodes), sp)
                pos_k = list(before).index(k)
                d = ref.amp_distance(one[0].amps, list(after.values())[pos_k].amps)
                mon.check(d <= 1e-5, lambda: '%s: state alone ends differently' % o)
        cur = nxt
    gen.compare(mon, gen.observe(c.evaluate_circuit(gen.collection(c, sp, states)), sp, mon), gen.observe(cur, sp), TOL,
                'whole circuit %s' % ops)
    if different:
        mon.nontrivial(gen.rich(sp, ops, states), [s.classical for s in states])
        mon.sample(dict(spec=sp, ops=[o['kind'] for o in ops], states=len(cur)))
