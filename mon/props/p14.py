"""P14: shift, controlled shift, coupling, custom matrices."""
import math

import numpy as np

from mon import gen, ref

ID = 'P14'
CASES = {'quick': 2500, 'thorough': 60000}
RULE = 'distinct by circuit shape, operations with channels and amounts, and inputs; non-trivial if an occupation changed'
REQUIRED_EVENTS = ['op:shift', 'op:shift_direct', 'op:c_shift', 'op:c_shift_direct', 'op:coupling', 'op:custom_fock', 'wrapped_around', 'variant_twins',
                   'order_sensitive_pairs', 'superpositions', 'matrices_inspected', 'coupling_split', 'end_point_coupling', 'single_channel_arguments',
                   'mixed_with_other_elements', 'multi_digit_names']
MIN_DISTINCT = 30
ASSUMPTIONS = ['tolerance 2e-4', 'coupling of intermediate strength claimed for basis states only']
TOL = 2e-4


def add(c, o, rng, mon):
    """Add the node, sometimes with a plain channel number where a single channel is meant."""
    k = o['kind']
    if k == 'coupling':
        a, b = list(o['controls']), list(o['targets'])
        if len(a) == 1 and rng.random() < 0.3:
            a, b = a[0], b[0]
            mon.event('single_channel_arguments')
        c.channel_coupling(control_channels=a, target_channels=b, coupling_strength=o['strength'])
    elif k == 'c_shift' and len(o['controls']) == 1 and rng.random() < 0.3:
        c.c_shift(control_channels=o['controls'][0], target_channels=o['targets'][0])
        mon.event('single_channel_arguments')
    else:
        gen.add_op(c, o)


def coupling(amps, pairs, strength, L):
    """Probabilities per outcome for one basis state, following the pairs in order; None if two paths meet."""
    out = {occ: abs(a) ** 2 for occ, a in amps.items()}
    for con, tar in pairs:
        new = {}
        for occ, p in out.items():
            sh = ref.cshift_occ(occ, [(con, tar)], L)
            for o, q in ([(occ, 1.0)] if sh == occ else [(sh, strength), (occ, 1 - strength)]):
                if o in new:
                    return None
                if q > 0:
                    new[o] = p * q
        out = new
    return out


def run_case(rng, mon, idx, tier):
    sp = gen.spec(rng, max_dim=90 if idx % 20 else 130, lengths=(2, 3, 4, 5, 7, 11), channels=(2, 3, 4, 2, 3, 4, 5, 6), ncl=(0, 3))
    if sp['L'] == 11:
        mon.event('multi_digit_names')
    note, L = gen.notation(sp), sp['L']
    D = L ** sp['nch']
    kinds = ['shift', 'shift_direct', 'c_shift', 'c_shift_direct', 'coupling'] + (['custom_fock'] if D <= 81 else [])
    if idx % 6 == 5:
        return run_coupling(rng, mon, sp)
    huge = idx % 60 == 31
    if huge:
        sp = gen.huge_spec(rng, (0, 3))
        note, L = gen.notation(sp), sp['L']
        D = L ** sp['nch']
        kinds = ['shift_direct', 'c_shift_direct']
        mon.event('unlistable_bases')
    ops = []
    for _ in range(rng.randint(1, 3)):
        k = rng.choice(kinds)
        if k == 'coupling':
            o = gen.op(rng, sp, ('c_shift',))
            o['kind'] = 'coupling'
            o['strength'] = rng.choice([0, 1, 0.0, 1.0])
            mon.event('end_point_coupling')
        elif k == 'custom_fock' and rng.random() < 0.4:
            perm = list(range(D))
            rng.shuffle(perm)
            o = dict(kind=k, matrix=np.eye(D)[perm] * np.exp(1j * rng.uniform(0, 6)))
        else:
            o = gen.op(rng, sp, (k,))
        ops.append(o)
        if rng.random() < 0.2 and not huge:
            ops.append(gen.op(rng, sp, ('swap', 'wave_plate', 'phase', 'half_wave_plate_225')))
            mon.event('mixed_with_other_elements')
    states = gen.rstates(rng, sp, weights=True)
    if sp['ncl'] and rng.random() < 0.5:
        for s in states:
            s.history.append((list(s.classical), 0.5))
    if any(len(s.amps) > 1 for s in states):
        mon.event('superpositions')
    c = gen.circuit(sp)
    tw = gen.circuit(sp)
    twin = False
    for o in ops:
        add(c, o, rng, mon)
        t = dict(o)
        if o['kind'] in ('shift', 'c_shift') and not huge and rng.random() < 0.7:
            t['kind'] = o['kind'] + '_direct'
            twin = True
        elif o['kind'] in ('shift_direct', 'c_shift_direct') and not huge and rng.random() < 0.7:
            t['kind'] = o['kind'][:-7]
            twin = True
        add(tw, t, rng, mon)
        mon.event('op:' + o['kind'])
    mon.check(len(c.node_list) == len(ops), 'number of nodes')
    want = states
    changed = False
    for o in ops:
        before = want
        if o['kind'] == 'coupling':
            pairs = list(zip(o['controls'], o['targets'])) if o['strength'] else []
            want = [s.copy() for s in want]
            for s in want:
                s.amps = {ref.cshift_occ(x, pairs, L): a for x, a in s.amps.items()}
        else:
            want = ref.step(sp, o, want)
        for s, w in zip(before, want):
            if set(s.amps) != set(w.amps):
                changed = True
            if o['kind'].startswith('shift') and any(sum(x) > sum(y) for x, y in zip(s.amps, w.amps)):
                mon.event('wrapped_around')
        if o['kind'].startswith('c_shift') and len(o['controls']) > 1:
            pairs = list(zip(o['controls'], o['targets']))
            if any(ref.cshift_occ(x, pairs, L) != ref.cshift_occ(x, pairs[::-1], L) for s in before for x in s.amps):
                mon.event('order_sensitive_pairs')
    what = '%s on %s in %s' % ([{k: v for k, v in o.items() if k != 'matrix'} for o in ops], [gen.show(s.amps) for s in states], sp)
    got = gen.observe(c.evaluate_circuit(gen.collection(c, sp, states)), sp, mon)
    gen.compare(mon, got, want, TOL, what)
    for g in got:
        w = [x for x in want if x.key() == g.key()]
        if len(w) == 1:
            mon.check([tuple(map(ref.canon, v)) for v, _ in g.history] == [tuple(map(ref.canon, v)) for v, _ in w[0].history], what + ': history')
    if twin:
        other = gen.observe(tw.evaluate_circuit(gen.collection(tw, sp, states)), sp, mon)
        gen.compare(mon, other, want, TOL, 'direct/matrix twin of ' + what)
        mon.event('variant_twins')
    if ops[0]['kind'] in ('shift', 'c_shift') and D <= 90:
        m = np.asarray(c.get_fock_state_matrix([0]))
        fn = ref.shift_occ if ops[0]['kind'] == 'shift' else ref.cshift_occ
        pairs = list(zip(ops[0]['targets'], ops[0]['shifts'])) if ops[0]['kind'] == 'shift' else list(zip(ops[0]['controls'], ops[0]['targets']))
        exp = np.zeros((D, D))
        for o in note.basis():
            exp[note.index(fn(o, pairs, L)), note.index(o)] = 1
        mon.check(m.shape == (D, D) and np.abs(m - exp).max() < 1e-6, 'reported matrix of %s in %s' % (ops[0], sp))
        mon.event('matrices_inspected')
    if changed:
        mon.nontrivial(gen.rich(sp, ops, states), [(o.get('targets'), o.get('shifts'), o.get('controls')) for o in ops])
        mon.sample(dict(spec=sp, ops=[(o['kind'], o.get('controls'), o.get('targets'), o.get('shifts')) for o in ops]))


def run_coupling(rng, mon, sp):
    L = sp['L']
    o = gen.op(rng, sp, ('c_shift',))
    o['kind'], o['strength'] = 'coupling', rng.choice([0.5, 0.25, 0.1, 0.9, rng.random()])
    if rng.random() < 0.6:
        o['controls'], o['targets'] = o['controls'][:1], o['targets'][:1]
    states, names = [], gen.initial_names(rng, 4)
    for i in range(rng.randint(1, 3)):
        states.append(ref.RState({gen.random_occ(rng, sp): 1.0}, gen.random_classical(rng, sp), round(rng.uniform(0.1, 1), 3), [], names[i]))
    c = gen.circuit(sp)
    add(c, o, rng, mon)
    mon.event('op:coupling')
    got = gen.observe(c.evaluate_circuit(gen.collection(c, sp, states)), sp, mon)
    what = 'coupling %s in %s' % (o, sp)
    mon.check(sorted(s.initial for s in got) == sorted(s.initial for s in states), what + ': states')
    split = False
    for s in states:
        g = next(x for x in got if x.initial == s.initial)
        want = coupling(s.amps, list(zip(o['controls'], o['targets'])), o['strength'], L)
        if want is None:
            mon.event('paths_meet')
            continue
        for occ in set(want) | set(g.amps):
            mon.close(abs(g.amps.get(occ, 0)) ** 2, want.get(occ, 0), TOL, lambda: what + ': probability of %s from %s' % (occ, gen.show(s.amps)))
        mon.close(g.weight, s.weight, 1e-9, what + ': weight')
        mon.check(list(map(float, g.classical)) == list(map(float, s.classical)), what + ': classical values')
        if len(want) > 1:
            mon.event('coupling_split')
            split = True
    if split:
        mon.nontrivial('coupling', sp['L'], sp['nch'], sp['left'], o['controls'], o['targets'], [sorted(s.amps) for s in states])
