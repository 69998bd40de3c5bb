"""P12: density matrices and clean-up."""
import cmath
import math

import numpy as np

from mon import gen, ref
from mon.props.p10 import rho

import fock_state_circuit as fsc

ID = 'P12'
CASES = {'quick': 3000, 'thorough': 80000}
RULE = 'distinct by circuit shape, states and how duplicates were made; non-trivial if a mixture of at least two states was examined'
REQUIRED_EVENTS = ['density_matrices', 'clean_ups', 'states_merged', 'distinct_states_kept', 'phase_twins_kept', 'conjugates_kept', 'initial_state_is_part_of_another', 'single_initial_state',
                   'evaluated_mixtures', 'small_components_removed', 'measured_mixtures', 'use_after_clean_up']
MIN_DISTINCT = 30
ASSUMPTIONS = ['states normalised', 'density matrix accepted in either index order (transposed)', 'clean-up tolerance follows the threshold of the circuit']


def matrices(col, sp, mon, states, what, tol=1e-5):
    note = ref.Notation(sp['L'], sp['nch'], True)
    places = None
    out = col.density_matrix()
    inis = {s.initial for s in states}
    mon.check(set(out) == inis, lambda: what + ': density matrices for %s, expected %s' % (sorted(out), sorted(inis)))
    for ini in inis:
        want = rho([s for s in states if s.initial == ini], note)
        m = np.asarray(out[ini]['density_matrix'])
        mon.check(m.shape == want.shape, what + ': shape')
        mon.check(np.abs(m - m.conj().T).max() <= 1e-6, what + ': not hermitian')
        e = min(np.abs(m - want).max(), np.abs(m - want.T).max())
        mon.maximum('max_dev_density', e)
        mon.check(e <= tol, lambda: what + ': density matrix of %s off by %g' % (ini, e))
        mon.check(np.linalg.eigvalsh(m).min() > -1e-5 if m.shape[0] <= 90 else np.diag(m).real.min() > -1e-6, what + ': not positive')
        tr, tr2 = np.trace(want).real, np.sum(want * want.T).real
        mon.close(out[ini]['trace'], tr, 0.0051, what + ': trace of ' + ini)
        mon.close(out[ini]['trace_dm_squared'], tr2, 0.0051, what + ': trace of the square of ' + ini)
        mon.event('density_matrices')
    one = sorted(inis)[0]
    single = col.density_matrix(initial_state=one, decimal_places_for_trace=5)
    mon.check(set(single) == {one}, what + ': asked for one initial state')
    mon.check(np.abs(np.asarray(single[one]['density_matrix']) - np.asarray(out[one]['density_matrix'])).max() < 1e-12, what + ': single differs')
    want = rho([s for s in states if s.initial == one], note)
    mon.close(single[one]['trace'], np.trace(want).real, 2e-5, what + ': trace with 5 places')
    mon.close(single[one]['trace_dm_squared'], np.sum(want * want.T).real, 2e-5, what + ': trace of square with 5 places')
    mon.event('single_initial_state')


def run_case(rng, mon, idx, tier):
    sp = gen.spec(rng, max_dim=130, lengths=(2, 3, 4, 5, 11), channels=(2, 3, 4, 2, 3, 4, 5, 6), ncl=(0, 3))
    sp['thr'] = rng.choice([1e-12, 1e-10, 1e-10, 1e-6, 1e-4])
    thr = sp['thr']
    c = gen.circuit(sp)
    names = rng.choice([['A', 'A', 'B'], ['A', 'AB', 'ABA'], ['AB', 'B', 'A'], ['10', '1', '01'], ['in', 'in2', 'IN'], ['a b', 'a', ' a']])
    base = [gen.random_amps(rng, sp) for _ in range(rng.randint(1, 3))]
    states, classes = [], []
    for i in range(rng.randint(1, 6)):
        b = rng.randrange(len(base))
        amps = dict(base[b])
        k = rng.randrange(6)
        cls = (b, 0)
        if k == 1:       # same up to a phase: another amplitude list, the same projector
            ph = rng.uniform(0.3, 2 * math.pi - 0.3)
            amps = {o: a * cmath.exp(1j * ph) for o, a in amps.items()}
            cls = (b, ph)
        elif k == 2 and len(amps) > 1:   # relative phase: another projector with the same probabilities
            o = rng.choice(sorted(amps))
            if abs(amps[o]) ** 2 > 0.05:
                ph = rng.uniform(0.8, 2 * math.pi - 0.8)
                amps[o] = amps[o] * cmath.exp(1j * ph)
                cls = (b, o, ph)
        elif k == 3:
            items = list(amps.items())
            rng.shuffle(items)
            amps = dict(items)
        elif k == 4 and any(abs((a * a).imag) > 0.05 for a in amps.values()):      # complex conjugate: the same probabilities too
            amps = {o: a.conjugate() for o, a in amps.items()}
            cls = (b, 'conjugate')
        ini = rng.choice(names)
        st = ref.RState(amps, [rng.randint(0, 2) for _ in range(sp['ncl'])], 1.0, [], ini)
        states.append(st)
        classes.append((ini,) + cls)
    # genuinely equal amplitude lists may arise in more than one way: classes by content
    wsum = {}
    for s in states:
        s.weight = rng.uniform(0.02, 1)
        wsum[s.initial] = wsum.get(s.initial, 0) + s.weight
    target = {i: rng.choice([1.0, 1.0, rng.uniform(0.2, 1)]) for i in wsum}
    for s in states:
        s.weight *= target[s.initial] / wsum[s.initial]
    tiny = False
    if rng.random() < 0.3:
        s = states[0]
        o = gen.random_occ(rng, sp)
        if o not in s.amps and len(states) == 1:
            s.amps[o] = math.sqrt(thr) * rng.uniform(0.1, 0.7) * cmath.exp(1j * rng.uniform(0, 6))
            tiny = True
    col = gen.collection(c, sp, states)
    what = 'mixture %s of %s' % ([(s.initial, round(s.weight, 5), gen.show(s.amps)) for s in states], sp)
    before = gen.fingerprint(col)
    matrices(col, sp, mon, states, what)
    mon.check(gen.fingerprint(col) == before, what + ': changed by computing the density matrix')
    # also for mixtures that the code itself produced
    if rng.random() < 0.4:
        ops = [gen.op(rng, sp, ref.OPTICAL) for _ in range(rng.randint(1, 2))]
        if sp['ncl'] and rng.random() < 0.7:
            ops.append(gen.op(rng, sp, ('measure',)))
            mon.event('measured_mixtures')
        c2, _ = gen.build(sp, ops)
        res = c2.evaluate_circuit(col)
        matrices(res, sp, mon, gen.observe(res, sp), 'result of %s on ' % ops + what)
        mon.event('evaluated_mixtures')
        if rng.random() < 0.7:
            col = res
            states = gen.observe(res, sp)
            classes = None
            tiny = True
    # clean-up
    chosen = rng.choice(['', ''] + names)
    if chosen not in {s.initial for s in states}:
        chosen = ''
    if chosen and any(s.initial != chosen and chosen in s.initial for s in states):
        mon.event('initial_state_is_part_of_another')
    touched = {chosen} if chosen else {s.initial for s in states}
    untouched = [f for f in gen.fingerprint(col) if f[1] not in touched]
    ids = list(col.keys())
    col.clean_up(chosen) if rng.random() < 0.5 else col.clean_up(initial_state=chosen)
    after = gen.observe(col, sp, mon)
    what = 'clean_up(%r) of ' % chosen + what
    mon.check([f for f in gen.fingerprint(col) if f[1] not in touched] == untouched, what + ': another initial state was touched')
    mon.check(set(col.keys()) <= set(ids), what + ': new identifiers')
    note = ref.Notation(sp['L'], sp['nch'], True)
    removable = {}
    for s in states:
        removable[s.initial] = removable.get(s.initial, 0) + 1
    for ini in touched:
        a, b = [s for s in after if s.initial == ini], [s for s in states if s.initial == ini]
        tol = 2e-5 + 3 * math.sqrt(thr) + 2 * thr * len(b)
        e = np.abs(rho(a, note) - rho(b, note)).max()
        mon.check(e <= tol, lambda: what + ': density matrix of %s off by %g' % (ini, e))
        mon.close(sum(s.weight for s in a), sum(s.weight for s in b), 1e-5 + thr * len(b), what + ': weight of ' + ini)
        for s in a:
            mon.close(s.norm2(), 1, 1e-5 + 4 * thr, what + ': state not normalised')
            mon.check(min(abs(x) ** 2 for x in s.amps.values()) >= thr * 0.99, lambda: what + ': a component below the threshold remains in ' + gen.show(s.amps))
            if tiny:
                mon.event('small_components_removed')
        if classes is not None and not tiny:
            want = {}
            for s, k in zip(states, classes):
                if s.initial == ini:
                    want.setdefault(k, []).append(s)
            # merge classes whose amplitude lists are equal anyway, leave undecided what is nearly equal
            reps = [v[0].amps for v in want.values()]
            dist = [ref.amp_distance(x, y) for i, x in enumerate(reps) for y in reps[:i]]
            if all(d > 6 * math.sqrt(thr) + 1e-4 for d in dist) and all(s.weight > 2 * thr for s in b):
                mon.check(len(a) == len(want), lambda: what + ': %d states of %s remain, expected %d' % (len(a), ini, len(want)))
                for k, v in want.items():
                    tot = sum(s.weight for s in v)
                    hit = [s for s in a if ref.amp_distance(s.amps, v[0].amps) <= 1e-5 + 2 * math.sqrt(thr)]
                    mon.check(len(hit) == 1, lambda: what + ': %s present %d times' % (gen.show(v[0].amps), len(hit)))
                    mon.close(hit[0].weight, tot, 1e-5, what + ': merged weight of ' + gen.show(v[0].amps))
                    if len(v) > 1:
                        mon.event('states_merged')
                if len(want) > 1:
                    mon.event('distinct_states_kept')
                if any(k[-1] == 'conjugate' for k in want) and len(want) > 1:
                    mon.event('conjugates_kept')
                if any(len(k) == 3 and k[2] for k in want) and len(want) > 1:
                    mon.event('phase_twins_kept')
    # the cleaned collection is an ordinary collection
    col2 = col.copy()
    col2.clean_up()
    if not chosen:
        mon.check(len(col2) == len(col), what + ': cleaning up twice removes more states')
    if sp['ncl'] and rng.random() < 0.5:
        m = gen.op(rng, sp, ('measure',))
        c3, _ = gen.build(sp, [m])
        res = gen.observe(c3.evaluate_circuit(col), sp, mon)
        for ini in {s.initial for s in after}:
            mon.close(sum(s.weight for s in res if s.initial == ini), sum(s.weight for s in after if s.initial == ini), 2e-4 + 8 * thr,
                      what + ': measuring afterwards')
        mon.event('use_after_clean_up')
    mon.event('clean_ups')
    if len(states) > 1:
        mon.nontrivial(sp['L'], sp['nch'], sp['left'], thr, [(s.initial, sorted(s.amps), round(s.weight, 4)) for s in states])
        mon.sample(dict(spec=sp, states=len(states), after_clean_up=len(after), chosen=chosen))
