"""P06: classical channels and measurement history."""
import copy

from mon import gen, ref, special

ID = 'P06'
CASES = {'quick': 4000, 'thorough': 80000}
RULE = 'distinct by circuit shape, operation kinds and input sizes; non-trivial if a measurement was followed by a classical write'
REQUIRED_EVENTS = ['classical_nodes_monitored', 'history_entries_followed', 'measurements_monitored', 'user_writes', 'spectral_programs',
                   'pair_programs']
MIN_DISTINCT = 30
ASSUMPTIONS = ['classical functions depend only on their arguments']
TOL = 2e-4


def raw_history(s):
    return [(copy.deepcopy(m['measurement_results']), repr(complex(m['probability']))) for m in s.measurement_results]


def raw(s):
    return (s.initial_state, repr(complex(s.cumulative_probability)),
            tuple((n, repr(complex(a['amplitude']))) for n, a in s.optical_components.items()))


def multiset(items):
    out = {}
    for i in items:
        k = repr(i)
        out[k] = out.get(k, 0) + 1
    return out

LARGE = [300.5, -70000, 1234567, 98765.4321, 2 ** 40]


def run_case(rng, mon, idx, tier):
    family = ('plain', 'plain', 'plain', 'spectral', 'plain', 'pair')[idx % 6]
    if family == 'pair':
        sp = gen.spec(rng, lengths=(2,), channels=(4,), ncl=(4, 6))
        pre = [special.pair_op(rng, sp)]
        h = pre[0]['pairs'][0][0]
        pre += [dict(kind='half_wave_plate', a=h[2 * i], b=h[2 * i + 1], theta=gen.angle(rng)) for i in range(2)]
        pre.append(gen.op(rng, sp, ('measure',)))
        states = [ref.RState({(0, 0, 0, 0): 1}, gen.random_classical(rng, sp), 1.0, [], 'in%d' % i) for i in range(rng.randint(1, 2))]
        mon.event('pair_programs')
    elif family == 'spectral':
        sp = gen.spec(rng, lengths=(3,), channels=(2, 3), ncl=(1, 4))
        fam = rng.choice([special.DELAYS[:2], special.DELAYS[2:]])
        pre = special.linear(rng, sp, 1) + [special.delay_op(rng, sp, fam)] + special.linear(rng, sp, 1) + [gen.op(rng, sp, ('measure',))]
        states = special.low_states(rng, sp, 2)
        mon.event('spectral_programs')
    else:
        sp = gen.spec(rng, max_dim=130, ncl=(1, 4))
        pre = []
        states = gen.rstates(rng, sp, weights=True)
        for r in states:
            if rng.random() < 0.1:
                r.classical[rng.randrange(sp['ncl'])] = rng.choice(LARGE)
                mon.event('large_values')
    classical = ('set_classical', 'classical_function')
    ops = list(pre)
    n = rng.randint(1, 3) if pre else rng.randint(2, 7)
    for _ in range(n):
        kinds = classical if pre else rng.choice([classical, classical, ('measure',), ref.OPTICAL + ('phase_cc', 'wave_plate_cc')])
        ops.append(gen.op(rng, sp, kinds))
    c = gen.circuit(sp)
    groups = [special.add_op(c, o) for o in ops]
    cur = gen.collection(c, sp, states)
    for s in cur:       # a history from earlier
        if rng.random() < 0.3:
            s.measurement_results = [{'measurement_results': gen.random_classical(rng, sp), 'probability': round(rng.random(), 3)}
                                     for _ in range(rng.randint(1, 2))]
    measured, relevant = False, False
    for o, nodes in zip(ops, groups):
        before = [(raw(s), list(s.classical_channel_values), raw_history(s)) for s in cur]
        abstract = [gen.observe_state(s, sp) for s in cur] if not pre else None
        nxt = c.evaluate_circuit(cur, nodes)
        what = '%s in %s' % (o, [q['kind'] for q in ops])
        after = [(raw(s), list(s.classical_channel_values), raw_history(s)) for s in nxt]
        if o['kind'] in classical:
            want = []
            for r, cl, h in before:
                fake = ref.step(sp, o, [ref.RState({}, cl)])[0]
                want.append((r, fake.classical, h))
            mon.check([a[0] for a in after] == [w[0] for w in want], lambda: '%s: optical content, weight or origin changed' % what)
            mon.check([a[1] for a in after] == [w[1] for w in want], lambda: '%s: classical values %s, expected %s from %s' % (
                what, [a[1] for a in after], [w[1] for w in want], [b[1] for b in before]))
            mon.check([a[2] for a in after] == [w[2] for w in want], lambda: '%s: history changed' % what)
            mon.event('classical_nodes_monitored')
            relevant = relevant or measured
        elif o['kind'] == 'measure':
            measured = True
            mon.event('measurements_monitored')
            mon.check(len(after) > 0, what + ': no branches')
            prefixes = [(b[0][0], b[2]) for b in before] if family == 'plain' else None
            for (r, cl, h) in after:
                mon.check(len(h) >= 1 and h[-1][0] == cl, lambda: '%s: last entry %s, classical values %s' % (what, h[-1:], cl))
                if prefixes is not None:
                    mon.check((r[0], h[:-1]) in prefixes, lambda: '%s: earlier entries %s are none of %s' % (what, h[:-1], prefixes))
                else:
                    # photon-resolved and pair states: one history per origin
                    mon.check(h[:-1] in [b[2] for b in before], lambda: '%s: earlier entries %s' % (what, h[:-1]))
                mon.check(0 <= complex(h[-1][1]).real <= 1 + 1e-4, lambda: '%s: recorded probability %s' % (what, h[-1][1]))
                # only the named channels are written
                mon.check(any(all(cl[k] == b[1][k] for k in range(sp['ncl']) if k not in o['classical']) for b in before),
                          lambda: '%s: classical values %s of other channels differ from %s' % (what, cl, [b[1] for b in before]))
                mon.event('history_entries_followed', len(h))
            if abstract is not None:
                gen.compare(mon, gen.observe(nxt, sp, mon), ref.step(sp, o, abstract), TOL, what)
        else:
            if family == 'plain':
                mon.check([a[1:] for a in after] == [b[1:] for b in before], lambda: '%s: classical values or history changed' % what)
            else:
                hs = [b[1:] for b in before]
                mon.check(all(a[1:] in hs for a in after), lambda: '%s: classical values or history changed' % what)
            mon.event('optical_nodes_monitored')
        # the user writes classical values directly
        if len(nxt) and rng.random() < 0.4:
            hist = [raw_history(s) for s in nxt]
            vals = [list(s.classical_channel_values) for s in nxt]
            k = rng.randrange(len(nxt))
            target = list(nxt.values())[k]
            if rng.random() < 0.5:
                i = rng.randrange(sp['ncl'])
                target.classical_channel_values[i] = vals[k][i] = rng.randint(10, 20)
            else:
                vals[k] = [rng.randint(10, 20) for _ in range(sp['ncl'])]
                target.classical_channel_values = list(vals[k])
            mon.check([raw_history(s) for s in nxt] == hist, lambda: 'writing classical values after %s changed the history' % what)
            mon.check([list(s.classical_channel_values) for s in nxt] == vals, lambda: 'writing classical values of one state after %s '
                      'changed those of another' % what)
            mon.event('user_writes')
            relevant = relevant or measured
        cur = nxt
    if relevant:
        mon.nontrivial(gen.rich(sp, ops, states), [o.get('channels', o.get('optical')) for o in ops])
        mon.sample(dict(spec=sp, ops=[o['kind'] for o in ops], states=len(cur)))
