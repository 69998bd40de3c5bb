"""P08: notation twins."""
import numpy as np

from mon import gen, ref, special

import fock_state_circuit as fsc

ID = 'P08'
CASES = {'quick': 2000, 'thorough': 50000}
RULE = 'distinct by circuit shape, operations, collection operations and input sizes; non-trivial if more than one component or state was compared'
REQUIRED_EVENTS = ['twin_evaluations', 'twin_density_matrices', 'twin_reductions', 'twin_extensions', 'twin_length_changes',
                   'twin_histograms', 'twin_correlations', 'multi_digit_names', 'twin_vectors', 'twin_spectral', 'twin_pairs',
                   'twin_hamiltonians', 'twin_tensors', 'twin_defaults']
MIN_DISTINCT = 30
ASSUMPTIONS = ['both circuits get the same operations, inputs are translated name by name']
TOL = 2e-4
KINDS = ref.OPTICAL + ('phase_cc', 'wave_plate_cc', 'measure', 'set_classical', 'classical_function', 'shift', 'shift_direct',
                       'c_shift', 'c_shift_direct', 'custom_fock')


def twin_sp(sp):
    return dict(sp, left=not sp['left'])


def dm_by_occ(col, sp, initial):
    note = gen.notation(sp)
    d = col.density_matrix(initial_state=initial)[initial]
    names = list(col._fock_state_circuit.basis().keys()) if hasattr(col._fock_state_circuit, 'basis') else None
    if names is None:
        names = col.generate_allowed_components_names_as_list_of_strings()
    order = [note.occ(n) for n in names]
    return order, np.asarray(d['density_matrix']), d['trace'], d['trace_dm_squared']


def compare_mixtures(mon, a, b, spa, spb, what, tol=TOL):
    """Two collections as multisets of (origin, classical values, history) -> amplitudes and weight."""
    ga = [gen.observe_state(s, spa, mon) for s in a]
    gb = [gen.observe_state(s, spb, mon) for s in b]
    ga = [s for s in ga if s.weight > 1e-6]
    gb = [s for s in gb if s.weight > 1e-6]
    # greedy matching
    left = list(gb)
    for s in ga:
        for i, t in enumerate(left):
            if (s.initial == t.initial and s.key() == t.key() and abs(s.weight - t.weight) <= tol and
                    len(s.classical) == len(t.classical) and
                    all(abs(float(x) - float(y)) < 1e-6 for x, y in zip(s.classical, t.classical)) and
                    ref.amp_distance(s.amps, t.amps) <= tol * (1 if s.weight > 0.01 else 30)):
                del left[i]
                break
        else:
            if s.weight < 1e-3:
                continue
            mon.check(False, '%s: state %s %s weight %s classical %s has no counterpart among %s' % (
                what, s.initial, gen.show(s.amps), s.weight, s.classical, [(t.initial, gen.show(t.amps), t.weight, t.classical) for t in left][:5]))
    mon.check(all(t.weight < 2e-3 for t in left), lambda: '%s: extra states in other notation %s' % (
        what, [(t.initial, gen.show(t.amps), t.weight, t.classical) for t in left][:4]))
    mon.events['decisions'] += len(ga)
    mon.event('states_compared', len(ga))


def run_case(rng, mon, idx, tier):
    fam = idx % 10
    if fam == 3:
        sp = gen.spec(rng, lengths=(3,), channels=(2, 3), ncl=(2, 4))
        f = rng.choice([special.DELAYS[:2], special.DELAYS[2:]])
        ops = special.linear(rng, sp, 1) + [special.delay_op(rng, sp, f)] + special.linear(rng, sp, 1) + [gen.op(rng, sp, ('measure',))]
        states = special.low_states(rng, sp, 2)
        mon.event('twin_spectral')
    elif fam == 5:
        sp = gen.spec(rng, lengths=(2, 3), channels=(4,), ncl=(4, 5))
        ops = [special.pair_op(rng, sp)]
        h = ops[0]['pairs'][0][0]
        ops += [dict(kind='half_wave_plate', a=h[2 * i], b=h[2 * i + 1], theta=gen.angle(rng)) for i in range(2)]
        ops.append(dict(kind='measure', optical=[0, 1, 2, 3], classical=rng.sample(range(sp['ncl']), 4)))
        states = [ref.RState({(0,) * 4: 1}, [0] * sp['ncl'], 1.0, [], 'in%d' % i) for i in range(rng.randint(1, 2))]
        mon.event('twin_pairs')
    elif fam == 7:
        sp = gen.spec(rng, max_dim=64, lengths=(2, 3, 4), channels=(2, 3), ncl=(1, 3))
        a, b = rng.sample(range(sp['nch']), 2)
        ops = [rng.choice([dict(kind='ham_plate', a=a, b=b, theta=rng.uniform(-2, 2), phi=rng.uniform(-2, 2)),
                           dict(kind='ham_plate_cc', a=a, b=b, c_theta=rng.randrange(sp['ncl']), c_phi=rng.randrange(sp['ncl']))])]
        states = special.low_states(rng, sp, sp['L'] - 1)
        mon.event('twin_hamiltonians')
    else:
        sp = gen.spec(rng, max_dim=130, lengths=(2, 3, 4, 5, 11), ncl=(0, 4))
        if sp['L'] == 11:
            kinds = [k for k in KINDS if k not in ('shift', 'c_shift', 'custom_fock')]
            mon.event('multi_digit_names')
        else:
            kinds = [k for k in KINDS if (k != 'custom_fock' or sp['L'] ** sp['nch'] <= 64) and
                     (k not in ('shift', 'c_shift') or sp['L'] ** sp['nch'] <= 90)]
        ops = [gen.op(rng, sp, kinds) for _ in range(rng.randint(0, 4))]
        states = gen.rstates(rng, sp, weights=True)
    st = twin_sp(sp)
    c1, _ = special.build(sp, ops)
    c2, _ = special.build(st, ops)
    i1, i2 = gen.collection(c1, sp, states), gen.collection(c2, st, states)
    what = 'notations of %s' % ops
    r1, r2 = c1.evaluate_circuit(i1), c2.evaluate_circuit(i2)
    compare_mixtures(mon, r1, r2, sp, st, what)
    mon.event('twin_evaluations')
    size = len(r1) + sum(len(s.optical_components) for s in r1)

    # default collections
    if fam == 1 and sp['L'] ** sp['nch'] <= 130:
        d1, d2 = fsc.CollectionOfStates(c1), fsc.CollectionOfStates(c2)
        mon.check([gen.notation(sp).occ(s.initial_state) for s in d1] == [gen.notation(st).occ(s.initial_state) for s in d2],
                  'default collections list other states or in another order')
        mon.event('twin_defaults')
    # vectors
    s1, s2 = rng.choice([(a, b) for a, b in zip(i1, i2)])
    v1, b1 = s1.translate_state_components_to_vector()
    v2, b2 = s2.translate_state_components_to_vector()
    mon.check(np.abs(np.asarray(v1) - np.asarray(v2)).max() < 1e-9, what + ': vectors differ')
    mon.event('twin_vectors')
    if fam in (3, 5):
        rep = rng.choice([(r1, r2)])
    else:
        rep = (r1, r2)
        for ini in sorted({s.initial_state for s in r1})[:2]:
            o1, m1, t1, q1 = dm_by_occ(r1, sp, ini)
            o2, m2, t2, q2 = dm_by_occ(r2, st, ini)
            pos = {o: k for k, o in enumerate(o2)}
            perm = [pos[o] for o in o1]
            mon.check(np.abs(m1 - m2[np.ix_(perm, perm)]).max() <= 5e-4, what + ': density matrices differ')
            mon.close(t1, t2, 0.011, what + ': traces')
            mon.close(q1, q2, 0.011, what + ': purity')
            mon.event('twin_density_matrices')
    # histograms and correlations over classical channels
    if sp['ncl']:
        chosen = rng.choice([[], rng.sample(range(sp['ncl']), rng.randint(1, sp['ncl']))])
        chosen_n = chosen or list(range(sp['ncl']))
        h1 = rep[0].plot(classical_channels=chosen, histo_output_instead_of_plot=True)
        h2 = rep[1].plot(classical_channels=chosen, histo_output_instead_of_plot=True)
        n1, n2 = ref.Notation(sp['L'], len(chosen_n), sp['left']), ref.Notation(sp['L'], len(chosen_n), st['left'])
        mon.check(set(h1) == set(h2), what + ': histograms have other initial states')
        for ini in h1:
            p1 = {n1.occ(e['output_state']): e['probability'] for e in h1[ini]}
            p2 = {n2.occ(e['output_state']): e['probability'] for e in h2[ini]}
            for o in set(p1) | set(p2):
                mon.close(p1.get(o, 0), p2.get(o, 0), 3e-4, lambda: what + ': histogram of %s at %s' % (ini, o))
        mon.event('twin_histograms')
        if sp['ncl'] > 1:
            combis = [tuple(rng.sample(range(sp['ncl']), 2)) for _ in range(2)]
            k1 = rep[0].plot_correlations(combis, correlation_output_instead_of_plot=True)
            k2 = rep[1].plot_correlations(combis, correlation_output_instead_of_plot=True)
            mon.check(set(k1) == set(k2), what + ': correlations of other initial states')
            for ini in k1:
                if sum(s.cumulative_probability for s in rep[0] if s.initial_state == ini) < 1e-2:
                    continue
                for x, y in zip(k1[ini], k2[ini]):
                    mon.close(x, y, 3e-3, lambda: what + ': correlations of %s for %s' % (combis, ini))
            mon.event('twin_correlations')
    # reshaping, on the inputs (any family) or plain results
    a, b = (i1.copy(), i2.copy()) if fam in (3, 5, 7) else (r1.copy(), r2.copy())
    na, nb = dict(sp), dict(st)
    done = []
    for _ in range(rng.randint(1, 2)):
        k = rng.randrange(3)
        if k == 0 and na['nch'] > 2:
            keep = sorted(rng.sample(range(na['nch']), rng.randint(2, na['nch'] - 1)))
            a.reduce(optical_channels_to_keep=list(keep))
            b.reduce(optical_channels_to_keep=list(keep))
            na['nch'] = nb['nch'] = len(keep)
            done.append(('reduce', tuple(keep)))
            mon.event('twin_reductions')
        elif k == 1 and na['L'] ** (na['nch'] + 1) <= 260:
            dist = rng.choice([[], [0.25, 0.75] + [0] * (na['L'] - 2)])
            a.extend(extra_optical_channels=1, extra_classical_channels=1, statistical_distribution=list(dist))
            b.extend(extra_optical_channels=1, extra_classical_channels=1, statistical_distribution=list(dist))
            for q in (na, nb):
                q['nch'] += 1
                q['ncl'] += 1
            done.append(('extend', len(dist)))
            mon.event('twin_extensions')
        elif k == 2 and (na['L'] + 1) ** na['nch'] <= 300:
            new = rng.choice([na['L'] + 1, na['L'] + 2, 11]) if 11 ** na['nch'] <= 130 else na['L'] + 1
            if new < na['L']:
                continue
            a.adjust_length_of_fock_state(new)
            b.adjust_length_of_fock_state(new)
            na['L'] = nb['L'] = new
            done.append(('length', new))
            mon.event('twin_length_changes')
        # several components can end in one state: compare incoherently sorted by origin
        compare_mixtures(mon, a, b, na, nb, 'after %s, ' % (done,) + what)
    # tensor products
    if len(i1) and sp['L'] ** (2 * sp['nch']) <= 700:
        k1, k2 = rng.randrange(len(i1)), rng.randrange(len(i1))
        x1, y1 = list(i1.values())[k1], list(i1.values())[k2]
        x2, y2 = list(i2.values())[k1], list(i2.values())[k2]
        t1, t2 = x1.tensor(y1), x2.tensor(y2)
        w1, w2 = ref.Notation(sp['L'], 2 * sp['nch'], sp['left']), ref.Notation(sp['L'], 2 * sp['nch'], st['left'])
        e1 = {w1.occ(n): v['amplitude'] for n, v in t1.items()}
        e2 = {w2.occ(n): v['amplitude'] for n, v in t2.items()}
        mon.check(ref.amp_distance(e1, e2) < 1e-6, lambda: 'tensor products in two notations: %s and %s' % (e1, e2))
        mon.event('twin_tensors')
    if size > 2:
        mon.nontrivial(gen.rich(sp, ops, states), done)
        mon.sample(dict(spec=sp, ops=[o['kind'] for o in ops], reshaped=done))
