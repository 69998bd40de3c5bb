"""P11: extending and rescaling."""
import numpy as np

from mon import gen, ref
from mon.props.p10 import rho

import fock_state_circuit as fsc

ID = 'P11'
CASES = {'quick': 3000, 'thorough': 80000}
RULE = 'distinct by circuit shape, input sizes and sequence of reshaping operations with their parameters; non-trivial if a collection with a superposition or mixture was reshaped'
REQUIRED_EVENTS = ['extensions', 'several_channels_with_two_digits', 'mixture_extensions', 'length_changes', 'length_reductions', 'round_trips', 'digit_changes',
                   'classical_extensions', 'evaluations_after_reshape', 'states_with_history', 'states_below_threshold', 'states_little_above_threshold']
MIN_DISTINCT = 30
ASSUMPTIONS = ['tolerance 1e-5', 'distributions add up to one', 'Fock length only reduced where every component fits']
TOL = 1e-5


def content(s):
    return (s.initial, tuple(map(ref.canon, s.classical)), tuple((tuple(map(ref.canon, v)), round(p, 9)) for v, p in s.history))


def distribution(rng, L, thr):
    k = rng.randrange(4)
    if thr > 1e-9 and rng.random() < 0.7:      # entries around the threshold, between it and its square root, and large ones
        d = [rng.choice([0.0, thr * 10 ** rng.uniform(-1.5, 2), thr ** rng.uniform(0.4, 1.2), rng.random()]) for _ in range(L)]
        i = rng.randrange(L)
        d[i] = 0.0
        if sum(d) > 0.9:
            d = [0.9 * x / sum(d) for x in d]
        d[i] = 1.0 - sum(d)
        return d
    if k == 0:
        return []
    d = [0.0] * L
    if L > 10 and k > 1:        # few values, of one and of two digits
        w = [rng.random() + 0.1 for _ in range(3)]
        for v, x in zip(rng.choice([[1, 11, 0], [1, 10, 0], rng.sample(range(L), 3)]), w):
            d[min(v, L - 1)] += x / sum(w)
        return d
    if k == 1:
        d[rng.randrange(L)] = 1
    else:
        w = [rng.random() if rng.random() < 0.7 else 0.0 for _ in range(L)]
        w[rng.randrange(L)] += 0.2
        d = [x / sum(w) for x in w]
    return d


def shares(col):
    seen = {}
    for s in col.values():
        for part in [s.classical_channel_values, s.measurement_results, s.optical_components] + list(s.measurement_results) + \
                list(s.optical_components.values()) + [s.auxiliary_information]:
            if id(part) in seen and seen[id(part)] is not s:
                return True
            seen[id(part)] = s
    return False


def run_case(rng, mon, idx, tier):
    sp = gen.spec(rng, max_dim=130, lengths=(2, 3, 4, 5, 10), channels=(2, 2, 3, 4), ncl=(0, 3), thr=rng.choice([1e-12, 1e-12, 1e-12, 1e-6, 1e-4, 1e-3, 0.02]))
    thr = sp['thr']
    large = rng.random() < 0.08       # photon numbers of two digits, extended by several channels
    if large:
        sp = dict(sp, L=rng.choice([11, 12, 13]), nch=2)
    states = gen.rstates(rng, sp, weights=True)
    if rng.random() < 0.5:
        for s in states:
            s.initial = 'mix'
            s.weight = s.weight / len(states)
    if sp['ncl'] and rng.random() < 0.5:
        for s in states:
            s.history.append((list(s.classical), 0.25))
            mon.event('states_with_history')
    c = gen.circuit(sp)
    col = gen.collection(c, sp, states)
    for s in col.values():
        if rng.random() < 0.5:
            s.auxiliary_information = {'note': ['kept']}
    cur, cs = states, sp
    log = []
    for step in range(rng.randint(1, 3)):
        what = 'after %s on %s %s' % (log, sp, [(s.initial, s.weight, gen.show(s.amps), s.classical) for s in states])
        if rng.random() < 0.5:
            eo, ec = rng.choice([(1, 0), (1, 1), (0, 1), (2, 0), (0, 2), (2, 2), (0, 0)])
            if cs['L'] ** (cs['nch'] + eo) > (30000 if large else 1200):
                continue
            dist = distribution(rng, cs['L'], thr)
            if sum(1 for d in dist if d) ** eo * len(cur) > 60:
                continue
            mon.event('several_channels_with_two_digits', eo > 1 and cs['L'] > 10)
            log.append(('extend', eo, ec, tuple(round(d, 4) for d in dist)))
            passed = list(dist)
            before = gen.fingerprint(col)
            col.extend(extra_optical_channels=eo, extra_classical_channels=ec, statistical_distribution=passed)
            what = 'after %s on %s %s' % (log, sp, [(s.initial, s.weight, gen.show(s.amps), s.classical) for s in states])
            mon.check(passed == dist, 'the distribution passed in was changed')
            if eo == ec == 0:
                mon.check(gen.fingerprint(col) == before, what + ': extending by nothing changed the collection')
                continue
            ns = dict(cs, nch=cs['nch'] + eo, ncl=cs['ncl'] + ec)
            got = gen.observe(col, ns, mon)
            full = dist or [1.0] + [0.0] * (cs['L'] - 1)
            want = []
            tails = [((), 1.0)]
            for _ in range(eo):
                tails = [(t + (v,), p * full[v]) for t, p in tails for v in range(cs['L']) if full[v] > 0]
            for s in cur:
                for t, p in tails:
                    want.append(ref.RState({o + t: a for o, a in s.amps.items()}, s.classical + [0] * ec, s.weight * p, s.history, s.initial))
            if thr > 1e-9 and any(w.weight < thr for w in want):
                mon.event('states_below_threshold')
            if thr > 1e-9 and any(thr < w.weight < thr ** 0.5 for w in want):
                mon.event('states_little_above_threshold')
            if len(tails) > 1:
                mon.event('mixture_extensions')
            if ec:
                mon.event('classical_extensions')
            mon.event('extensions')
        else:
            fit = max([max(o) for s in cur for o in s.amps]) + 1
            new = rng.choice([cs['L'] + 1, cs['L'] + 3, max(fit, 2), max(11, fit), rng.randint(max(fit, 2), max(fit, cs['L']) + 3), 0])
            eff = new or cs['L']
            if eff ** cs['nch'] > 1200:
                continue
            log.append(('length', new))
            what = 'after %s on %s %s' % (log, sp, [(s.initial, s.weight, gen.show(s.amps), s.classical) for s in states])
            ids = list(col.keys())
            col.adjust_length_of_fock_state(new)
            mon.check(list(col.keys()) == ids, what + ': identifiers changed')
            ns = dict(cs, L=eff)
            got = gen.observe(col, ns, mon)
            want = cur
            mon.event('length_changes')
            if eff < cs['L']:
                mon.event('length_reductions')
            if len(str(eff - 1)) != len(str(cs['L'] - 1)):
                mon.event('digit_changes')
        # states: same content with the same weight and amplitudes, each exactly once
        # an extension leaves out what is less probable than the threshold; nothing else disappears
        lost = [w for w in want if w.weight < thr] if log[-1][0] == 'extend' and thr > 1e-9 else []
        lost_weight = sum(w.weight for w in lost)
        left = [w for w in want if w.weight > 0 and not any(w is x for x in lost)]
        if any(abs(w.weight - thr) < 1e-6 * thr for w in want):
            mon.event('states_at_threshold')
            return
        mon.check(len(got) == len(left), lambda: what + ': %d states, expected %d' % (len(got), len(left)))
        for g in got:
            for i, w in enumerate(left):
                if content(g) == content(w) and abs(g.weight - w.weight) < TOL and ref.amp_distance(g.amps, w.amps) < TOL:
                    del left[i]
                    break
            else:
                mon.check(False, lambda: what + ': unexpected state %s %s weight %s %s' % (g.initial, gen.show(g.amps), g.weight, g.classical))
            mon.event('states_matched')
        mon.check(not shares(col), what + ': resulting states share data')
        mon.check(col._length_of_fock_state == ns['L'] and col._no_of_optical_channels == ns['nch'] and col._no_of_classical_channels == ns['ncl'], what + ': reported sizes')
        cp = col.copy()
        mon.check(gen.fingerprint(cp) == gen.fingerprint(col), what + ': copy differs')
        mon.check(cp._threshold_probability_for_setting_to_zero == sp['thr'], what + ': copy has another threshold')
        if ns['L'] ** ns['nch'] > 1200:      # reversing goes through all names, which takes minutes here
            break
        # removing what was added restores the original density matrices
        if log[-1][0] == 'extend':
            back = col.copy()
            back.reduce(optical_channels_to_keep=list(range(cs['nch'])), classical_channels_to_keep=list(range(cs['ncl'])))
            bsp = dict(cs) if cs['ncl'] else ns and dict(cs, ncl=ns['ncl'])
            b = gen.observe(back, bsp, mon)
        else:
            back = col.copy()
            back.adjust_length_of_fock_state(cs['L'])
            b = gen.observe(back, cs, mon)
        note = gen.notation(cs)
        for ini in {s.initial for s in cur}:
            if not any(g.initial == ini for g in b):
                continue
            e = np.abs(rho([s for s in b if s.initial == ini], note) - rho([s for s in cur if s.initial == ini], note)).max()
            mon.check(e <= TOL + lost_weight, lambda: what + ': reversing it leaves the density matrix of %s off by %g' % (ini, e))
            mon.event('round_trips')
        cur, cs = got, ns
    if log and not large and thr < 1e-9 and rng.random() < 0.5 and cs['L'] ** cs['nch'] <= 300:
        ops = [gen.op(rng, cs, ref.OPTICAL) for _ in range(2)]
        if cs['ncl']:
            ops.append(gen.op(rng, cs, ('measure',)))
        c2, _ = gen.build(cs, ops)
        want = cur
        for o in ops:
            want = ref.step(cs, o, want)
        res = gen.observe(c2.evaluate_circuit(col), cs, mon)
        n2 = gen.notation(cs)
        for ini in {s.initial for s in want}:
            e = np.abs(rho([s for s in res if s.initial == ini], n2) - rho([s for s in want if s.initial == ini], n2)).max()
            mon.check(e <= 3e-4, lambda: 'evaluating %s after %s: density matrix of %s off by %g' % (ops, log, ini, e))
        mon.event('evaluations_after_reshape')
    if log and (len(states) > 1 or len(states[0].amps) > 1):
        mon.nontrivial(sp['L'], sp['nch'], sp['ncl'], sp['left'], log, [sorted(s.amps) for s in states])
        mon.sample(dict(spec=sp, reshaped=log, states_in=len(states), states_out=len(cur)))
