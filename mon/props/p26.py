"""P26: rounding to the threshold drops what is below it and nothing else."""
import math

import numpy as np

from mon import gen, ref

import fock_state_circuit as fsc

ID = 'P26'
CASES = {'quick': 4000, 'thorough': 100000}
RULE = 'distinct by threshold, circuit shape, elements and input sizes; non-trivial if a component between 0 and the threshold or little above it occurred'
REQUIRED_EVENTS = ['element_steps', 'dropped', 'little_above_threshold', 'default_threshold', 'threshold_of_the_collection', 'norm_below_one', 'direct_steps', 'measurements',
                   'rare_outcomes', 'from_vector', 'whole_circuits', 'reduced_collections', 'extended_collections', 'bridged', 'compound', 'matrix_steps', 'hamiltonian_steps', 'default_input']
MIN_DISTINCT = 30
ASSUMPTIONS = ['components within rounding errors of the threshold may go either way', 'outcomes of a measurement below the threshold may be kept or dropped',
               'consecutive optical elements evaluated together are rounded once or after each element']
TOL = 1e-4


def unsure(p, thr):
    """Too close to the threshold to decide in single precision."""
    return abs(p - thr) <= 4e-6 * math.sqrt(max(p, thr)) + 1e-11


def spread(rng, sp, thr):
    """A superposition with components of very different size, some around the threshold."""
    occs = {gen.random_occ(rng, sp, rng.choice([None, 3])) for _ in range(rng.randint(1, 7))}
    occs = sorted(occs)
    rng.shuffle(occs)
    probs = [rng.choice([rng.random(), thr * 10 ** rng.uniform(-1, 1), thr * rng.uniform(0.3, 3), math.sqrt(thr) * rng.uniform(0.05, 1), 10 ** rng.uniform(-7, 0)]) for _ in occs]
    rest = sum(probs[1:])
    if rest > 0.8:
        probs = [probs[0]] + [0.8 * p / rest for p in probs[1:]]
        rest = 0.8
    probs[0] = 1 - rest
    return {o: math.sqrt(p) * np.exp(1j * rng.uniform(0, 7)) for o, p in zip(occs, probs)}


def linear(amps, sp, o):
    return ref.step(sp, o, [ref.RState(amps, [0] * max(1, sp['ncl']))])[0].amps


def rounded(mon, got, amps, thr, what, tol=TOL):
    """Decide one rounding step: what remains of the exact amplitudes."""
    for o, a in amps.items():
        p = abs(a) ** 2
        if unsure(p, thr):
            continue
        if p < thr:
            mon.check(o not in got, lambda: '%s: component %s of probability %g below the threshold %g remains' % (what, o, p, thr))
            mon.event('dropped', int(p > 1e-11))
        else:
            mon.check(o in got, lambda: '%s: component %s of probability %g was dropped with threshold %g' % (what, o, p, thr))
            mon.close(abs(got[o] - a), 0, tol * 0.2, lambda: '%s: amplitude of %s is %s, expected %s' % (what, o, got[o], a), 'amplitude')
            mon.event('little_above_threshold', int(p < 5 * thr))
            mon.event('components_compared')
    for o, a in got.items():
        if o not in amps:
            mon.check(abs(a) ** 2 < 1e-8, lambda: '%s: component %s appeared' % (what, o))
    if sum(abs(a) ** 2 for a in got.values()) < 1 - 3e-4:
        mon.event('norm_below_one')


def run_case(rng, mon, idx, tier):
    thr = rng.choice([1e-8, 1e-6, 1e-5, 1e-4, 1e-4, 1e-3, 0.01, 0.05, 0.1])
    sp = gen.spec(rng, max_dim=120, lengths=(2, 3, 4, 5, 11), channels=(2, 3, 4, 2, 3, 4, 5, 6), ncl=(0, 3), thr=thr)
    default = thr == 1e-4 and rng.random() < 0.5

    def circuit(t=thr):
        s = sp
        if default and t == thr:      # the documented default
            mon.event('default_threshold')
            return fsc.FockStateCircuit(length_of_fock_state=s['L'], no_of_optical_channels=s['nch'], no_of_classical_channels=s['ncl'],
                                        channel_0_left_in_state_name=s['left'], use_full_fock_matrix=s['full'])
        return gen.circuit(dict(s, thr=t))

    states = [ref.RState(spread(rng, sp, thr), gen.random_classical(rng, sp), round(rng.uniform(max(0.05, 1.2 * thr), 1), 3), [], n)
              for n in gen.initial_names(rng, rng.randint(1, 3))]
    c = circuit()
    col = gen.collection(c, sp, states)
    shape = 'threshold %g in %s' % (thr, sp)
    # reshaping does not change the threshold
    kind = rng.randrange(8)
    if kind == 0:
        col.extend(extra_optical_channels=0, extra_classical_channels=1)
        sp = dict(sp, ncl=sp['ncl'] + 1)
        for s in states:
            s.classical = s.classical + [0]
        mon.event('extended_collections')
    elif kind == 1:
        order = list(range(sp['nch']))
        col.reduce(optical_channels_to_keep=order)
        mon.event('reduced_collections')
    elif kind == 2:
        col = col.copy()
    cur = gen.observe(col, sp, mon)
    for s in states:
        g = [x for x in cur if x.initial == s.initial]
        mon.check(len(g) == 1 and set(g[0].amps) == set(s.amps) and ref.amp_distance(g[0].amps, s.amps) < 1e-5,
                  lambda: '%s: reshaping changed %s into %s' % (shape, gen.show(s.amps), [gen.show(x.amps) for x in g]))
    ops = []
    log = []
    while len(ops) < rng.randint(1, 4):
        k = rng.choice(['optical'] * 5 + ['matrix', 'direct', 'measure', 'hamiltonian'])
        if k == 'optical':
            o = gen.op(rng, sp, [x for x in ref.OPTICAL if 'pbs' not in x])
        elif k == 'matrix':
            o = gen.op(rng, sp, ('custom_fock', 'shift', 'c_shift'))
        elif k == 'direct':
            o = gen.op(rng, sp, ('shift_direct', 'c_shift_direct'))
        elif k == 'measure':
            if not sp['ncl']:
                continue
            o = gen.op(rng, sp, ('measure',))
        else:
            o = dict(kind='ham', ch=rng.randrange(sp['nch']), size=rng.uniform(0.1, 2))
        ops.append((k, o))
    # another circuit with another threshold: the threshold belongs to the collection
    runner = circuit()
    if rng.random() < 0.3:
        runner = circuit(t=rng.choice([t for t in (1e-12, 1e-3, 0.03) if t != thr]))
        mon.event('threshold_of_the_collection')
    for k, o in ops:
        before = len(runner.node_list)
        if k == 'hamiltonian':
            runner.hamiltonian_operator_gate(channels=[o['ch']], operators=[fsc.Hamiltonian(operators=[('+-', 1j * o['size'])], operator_channels=[0, 0])])
        else:
            gen.add_op(runner, o)
        nodes = list(range(before, len(runner.node_list)))
        mon.check(len(nodes) == 1, 'one node expected for %s' % o)
        nxt = runner.evaluate_circuit(col, nodes)
        after = gen.observe(nxt, sp, mon)
        what = '%s: %s after %s on %s' % (shape, o, log, [(s.initial, gen.show(s.amps)) for s in cur])
        if k == 'measure':
            measured(mon, o, cur, after, thr, what)
            if any(len({tuple(a[c] for c in o['optical']) for a in s.amps}) > 1 for s in cur):
                col, cur = nxt, after
                log.append(k)
                break       # branches are renormalised: followed no further
        else:
            mon.check(len(after) == len(cur), lambda: what + ': %d states from %d' % (len(after), len(cur)))
            for s, a in zip(cur, after):
                mon.check(s.initial == a.initial and abs(s.weight - a.weight) < 1e-9, what + ': states exchanged or weight changed')
                if k == 'direct':
                    want = linear(s.amps, sp, o)
                    mon.check(set(want) == set(a.amps) and ref.amp_distance(want, a.amps) < 1e-9, lambda: what + ': got ' + gen.show(a.amps))
                    mon.event('direct_steps')
                elif k == 'hamiltonian':
                    want = {x: v * np.exp(-1j * o['size'] * x[o['ch']]) for x, v in s.amps.items()}
                    for x, v in want.items():
                        p = abs(v) ** 2
                        if p > 1.01 * thr + 1e-7 and p > 2e-8 and x[o['ch']] < sp['L'] - 1:
                            mon.check(x in a.amps and abs(abs(a.amps[x]) - abs(v)) < 1e-3, lambda: '%s: component %s of probability %g was dropped' % (what, x, p))
                    mon.event('hamiltonian_steps')
                else:
                    rounded(mon, a.amps, linear(s.amps, sp, o), thr, what, 5 * TOL)
                    mon.event('element_steps' if k == 'optical' else 'matrix_steps')
        col, cur = nxt, after
        log.append(o['kind'])
    part_two(rng, mon, sp, thr, circuit, shape)
    mon.nontrivial(thr, default, sp['L'], sp['nch'], sp['left'], sp['full'], log, [len(s.amps) for s in states])
    mon.sample(dict(spec=sp, threshold=thr, steps=log))


def measured(mon, o, before, after, thr, what):
    for s in before:
        probs = {}
        for occ, a in s.amps.items():
            k = tuple(occ[c] for c in o['optical'])
            probs[k] = probs.get(k, 0) + abs(a) ** 2
        kids = [a for a in after if a.initial == s.initial and [tuple(map(ref.canon, v)) for v, _ in a.history[:-1]] == [tuple(map(ref.canon, v)) for v, _ in s.history]]
        if sum(x.initial == s.initial for x in before) > 1:
            return
        seen = {}
        for a in kids:
            k = tuple(a.classical[c] for c in o['classical'])
            mon.check(k not in seen, what + ': outcome %s twice' % (k,))
            seen[k] = a
        for k, p in probs.items():
            if p < 1.01 * thr:
                mon.event('rare_outcomes')
                continue
            mon.check(k in seen, lambda: '%s: outcome %s of probability %g is missing' % (what, k, p))
            mon.close(seen[k].weight, s.weight * p, 1e-6, lambda: '%s: weight of outcome %s' % (what, k))
            for occ, v in s.amps.items():
                if tuple(occ[c] for c in o['optical']) == k and abs(v) ** 2 / p > 1.01 * thr and abs(v) ** 2 > 1.01 * thr:
                    mon.check(occ in seen[k].amps and abs(seen[k].amps[occ] - v / math.sqrt(p)) < 1e-4, lambda: '%s: component %s of outcome %s: %s' % (what, occ, k, gen.show(seen[k].amps)))
        mon.event('measurements')


def part_two(rng, mon, sp, thr, circuit, shape):
    """A run of optical elements evaluated at once, alone, behind a bridge, in a compound circuit or on the default input."""
    c = circuit()
    ops = []
    while len(ops) < rng.randint(1, 2):
        o = gen.op(rng, sp, [x for x in ref.OPTICAL if 'pbs' not in x])
        ops.append(o)
        gen.add_op(c, o)
    one = len(ops) == 1
    amps = spread(rng, sp, thr)
    which = rng.randrange(5)
    st = ref.RState(amps, [0] * sp['ncl'], 1.0, [], 'x')
    what = '%s: %s on %s' % (shape, ops, gen.show(amps))
    if which == 0:
        res = c.evaluate_circuit(gen.collection(c, sp, [st]))
        mon.event('whole_circuits')
    elif which == 1:
        first = circuit()
        first.bridge(c)
        res = first.evaluate_circuit(gen.collection(first, sp, [st]))
        mon.event('bridged')
    elif which == 2:
        res = fsc.CompoundFockStateCircuit([circuit(), c]).evaluate_circuit(gen.collection(c, sp, [st]))
        mon.event('compound')
    elif which == 3:
        occ = gen.random_occ(rng, sp)
        amps = {occ: 1.0 + 0j}
        res = c.evaluate_circuit()
        name = gen.notation(sp).name(occ)
        st = ref.RState(amps, [0] * sp['ncl'], 1.0, [], name)
        what = '%s: %s on the default state %s' % (shape, ops, name)
        mon.event('default_input')
    else:
        s = next(iter(gen.collection(c, sp, [st]).values()))
        note = gen.notation(sp)
        exact = linear(amps, sp, ops[0])
        vec = np.array([exact.get(o, 0) for o in note.basis()], dtype=complex)
        s.set_state_components_from_vector(vec)
        rounded(mon, gen.observe_state(s, sp, mon).amps, exact, thr, what + ' from a vector', 1e-6)
        mon.event('from_vector')
        return
    got = [x for x in gen.observe(res, sp, mon) if x.initial == st.initial]
    mon.check(len(got) == 1, what + ': %d results' % len(got))
    cands = []
    exact = dict(amps)
    step = dict(amps)
    for o in ops:
        exact = linear(exact, sp, o)
        step = linear(step, sp, o)
        if any(unsure(abs(a) ** 2, thr) for a in step.values()):
            mon.event('undecided')
            return
        if o is not ops[-1]:
            step = {k: a for k, a in step.items() if abs(a) ** 2 >= thr}
    if one or ref.amp_distance(exact, step) < 1e-7:
        rounded(mon, got[0].amps, exact, thr, what, 5 * TOL)
        return
    from mon.core import Violation
    try:
        rounded(mon, got[0].amps, exact, thr, what, 5 * TOL)
    except Violation:
        rounded(mon, got[0].amps, step, thr, what, 5 * TOL)
