"""P01: linear optical circuits transform amplitudes by bosonic linear optics."""
import math

from mon import gen, ref

ID = 'P01'
CASES = {'quick': 5000, 'thorough': 100000}
RULE = ('distinct by circuit shape (Fock length, channels, notation, matrix mode), kinds of elements in order and '
        'sizes of the input superpositions; non-trivial if an element mixes channels holding photons and the monitors '
        'compared the resulting amplitudes')
REQUIRED_EVENTS = ['states_compared', 'elements_monitored', 'matrices_compared']
MIN_DISTINCT = 30
ASSUMPTIONS = ['amplitude tolerance 1e-4: the package computes transition amplitudes in single precision']
TOL = 1e-4


def photon_probability(mon, sp, op):
    """Monitor of the reflection/transmission fractions of a generic mixer with one photon."""
    if op['kind'] == 'mix_generic':
        chans = [(op['a'], op['b'])]
    else:
        chans = list(zip(op['ca'], op['cb']))
    c, _ = gen.build(sp, [op])
    for a, b in chans:
        occ = [0] * sp['nch']
        occ[a] = 1
        out = c.evaluate_circuit(gen.collection(c, sp, [ref.RState({tuple(occ): 1.0}, [0] * sp['ncl'], 1.0, [], 'x')]))
        got = gen.observe(out, sp)[0].amps
        stay = abs(got.get(tuple(occ), 0)) ** 2
        occ2 = list(occ)
        occ2[a], occ2[b] = 0, 1
        cross = abs(got.get(tuple(occ2), 0)) ** 2
        mon.close(stay + cross, 1.0, TOL, 'photon lost in generic mixer')
        R = op['refl']
        mon.event('mixer_fractions_observed')
        if min(abs(stay - R), abs(stay - (1 - R))) <= TOL:
            mon.event('decisions')
        elif abs(stay - (1 - 2 * R) ** 2) <= TOL:
            mon.finding('generic-mixer-uses-double-angle', 'mixer with reflection %g keeps a photon with probability %g'
                        % (R, stay))
        else:
            mon.check(False, 'mixer with reflection %g keeps a photon with probability %g' % (R, stay))


def run_case(rng, mon, idx, tier):
    sp = gen.spec(rng, max_dim=300 if idx % 10 else 800, lengths=(2, 3, 4, 5, 6, 11), ncl=(0, 1))
    bright = idx % 200 == 13
    if bright:  # more than twenty photons in a channel
        sp = dict(sp, L=rng.randint(21, 26), nch=2)
    nops = rng.randint(1, 5) if not bright else rng.randint(1, 2)
    ops = [gen.op(rng, sp, ref.OPTICAL) for _ in range(nops)]
    states = gen.scaled(rng, gen.rstates(rng, sp), mon)
    c, groups = gen.build(sp, ops)
    col = gen.collection(c, sp, states)
    # event trace: one event per element
    cur, want = col, states
    mixed = False
    for op, nodes in zip(ops, groups):
        cur = c.evaluate_circuit(cur, nodes)
        new = ref.step(sp, op, want)
        mixed = mixed or any(ref.amp_distance(x.amps, y.amps) > 1e-3 for x, y in zip(want, new))
        want = new
        gen.compare(mon, gen.observe(cur, sp, mon), want, TOL, 'after %s' % op)
        mon.event('elements_monitored')
    # the whole circuit at once
    whole = c.evaluate_circuit(col)
    gen.compare(mon, gen.observe(whole, sp, mon), want, TOL, 'whole circuit %s' % ops)
    # the reported transition matrix describes the same evolution
    if sp['L'] ** sp['nch'] <= 130:
        m = c.get_fock_state_matrix(nodes_to_be_evaluated=list(range(len(c.node_list))))
        note = gen.notation(sp)
        for s, w in zip(states, want):
            gotv = ref.apply_matrix(s.amps, m, note)
            mon.check(ref.amp_distance(gotv, w.amps) <= TOL, lambda: 'transition matrix of %s maps %s to %s, expected %s' % (
                ops, gen.show(s.amps), gen.show(gotv), gen.show(w.amps)))
            mon.event('matrices_compared')
    if idx % 4 == 0:
        g = dict(kind='mix_generic')
        g['a'], g['b'] = rng.sample(range(sp['nch']), 2)
        g['refl'] = gen.reflection(rng)
        photon_probability(mon, sp, g)
    if mixed:
        mon.nontrivial(gen.rich(sp, ops, states))
        mon.sample(dict(spec=sp, ops=[o['kind'] for o in ops], inputs=[gen.show(s.amps) for s in states]))
