"""P10: reduction is a partial trace."""
import cmath

import numpy as np

from mon import gen, ref

import fock_state_circuit as fsc

ID = 'P10'
CASES = {'quick': 4000, 'thorough': 100000}
RULE = 'distinct by circuit shape, input sizes and kept channels; non-trivial if an optical channel was traced out of a superposition or mixture'
REQUIRED_EVENTS = ['reductions', 'pure_state_became_mixture', 'classical_reductions', 'permuted_channels', 'evaluations_after_reduction',
                   'measured_inputs', 'repeated_reductions', 'empty_collections', 'several_digits_per_channel']
MIN_DISTINCT = 30
ASSUMPTIONS = ['tolerance 1e-5 (no rounding in single precision takes place in a reduction)', 'at least two optical channels remain']
TOL = 1e-5


def rho(states, note, keep=None):
    """Density matrix of the kept channels from amplitudes, partial trace done on amplitudes."""
    keep = list(range(note.channels)) if keep is None else keep
    rest = [c for c in range(note.channels) if c not in keep]
    small = ref.Notation(note.length, len(keep), True)
    d = note.length ** len(keep)
    m = np.zeros((d, d), dtype=complex)
    for s in states:
        vecs = {}
        for o, a in s.amps.items():
            v = vecs.setdefault(tuple(o[c] for c in rest), np.zeros(d, dtype=complex))
            v[small.index([o[c] for c in keep])] += a
        for v in vecs.values():
            m += s.weight * np.outer(v, v.conj())
    return m


def rho_distance(a, b, keep):
    """Largest difference between the density matrix of the states a and that of the kept channels of the states b."""
    m = {}
    for sign, states, ch in ((1, a, range(len(keep))), (-1, b, keep)):
        for s in states:
            vecs = {}
            for o, x in s.amps.items():
                k = tuple(o[c] for c in ch)
                v = vecs.setdefault(tuple(o[c] for c in range(len(o)) if c not in ch), {})
                v[k] = v.get(k, 0) + x
            for v in vecs.values():
                for p, x in v.items():
                    for q, y in v.items():
                        m[p, q] = m.get((p, q), 0) + sign * s.weight * x * y.conjugate()
    return max(map(abs, m.values()), default=0.0)


def run_case(rng, mon, idx, tier):
    sp = gen.spec(rng, max_dim=250, lengths=(2, 3, 4, 5, 11), channels=(2, 3, 3, 4, 5), ncl=(0, 4))
    big = idx % 20 == 5
    if big:      # several digits per channel and several channels to trace out
        sp = gen.spec(rng, max_dim=21000, lengths=(10, 11, 12, 12, 12, 25), channels=(3, 4), ncl=(0, 4))
    states = gen.rstates(rng, sp, weights=True) if idx % 40 else []
    if big:
        for s in states:
            pool = [rng.randrange(sp['L']) for _ in range(2)] + [1, 10 % sp['L'], 11 % sp['L'], 0, sp['L'] - 1]
            if rng.random() < 0.6:
                pool = rng.choice([[1, sp['L'] - 1], [1, 10 % sp['L'], 11 % sp['L'], 0], [0, 10 % sp['L']], [1, 11 % sp['L']]])
            occs = {tuple(rng.choice(pool) for _ in range(sp['nch'])) for _ in range(len(s.amps) + 1)}
            for o in list(occs):      # and with the values of two channels exchanged
                o, (x, y) = list(o), rng.sample(range(sp['nch']), 2)
                o[x], o[y] = o[y], o[x]
                occs.add(tuple(o))
            nrm = len(occs) ** 0.5
            s.amps = {o: cmath.exp(1j * rng.uniform(0, 6)) / nrm for o in sorted(occs)}
    if states and rng.random() < 0.5:      # several states of one initial state
        for s in states:
            s.initial = 'mix'
            s.weight = s.weight / len(states)
    if states and rng.random() < 0.2:      # a component that clean_up() set to zero
        s = rng.choice(states)
        o = gen.random_occ(rng, sp)
        if o not in s.amps:
            s.amps[o] = 0j
            mon.event('zero_components')
    if states and sp['ncl'] and rng.random() < 0.4:
        for s in states:
            s.history.append((list(s.classical), 0.25))
            mon.event('measured_inputs')
    c = gen.circuit(sp)
    col = gen.collection(c, sp, states)
    if not states:
        mon.event('empty_collections')
    cur, cursp = states, sp
    nontrivial = False
    if big:
        mon.event('several_digits_per_channel')
    log = []
    note = gen.notation(sp)
    for step in range(rng.choice([1, 1, 2])):
        nch, ncl = cursp['nch'], cursp['ncl']
        opt = rng.sample(range(nch), rng.randint(2, nch)) if rng.random() < 0.85 else []
        cla = rng.sample(range(ncl), rng.randint(1, ncl)) if ncl and rng.random() < 0.6 else []
        if rng.random() < 0.6:
            opt.sort()
            cla.sort()
        elif opt != sorted(opt):
            mon.event('permuted_channels')
        keep, keepc = opt or list(range(nch)), cla or list(range(ncl))
        ids = list(col.keys())
        passed_o, passed_c = list(opt), list(cla)
        col.reduce(optical_channels_to_keep=passed_o, classical_channels_to_keep=passed_c)
        mon.check(passed_o == opt and passed_c == cla, 'the lists passed in were changed')
        newsp = dict(cursp, nch=len(keep), ncl=len(keepc))
        got = gen.observe(col, newsp, mon)
        newnote = gen.notation(newsp)
        what = 'reduce(%s, %s) of %s %s' % (opt, cla, cursp, [(s.initial, s.weight, gen.show(s.amps)) for s in cur])
        log.append((tuple(opt), tuple(cla)))
        mon.check({s.initial for s in got} == {s.initial for s in cur}, lambda: what + ': initial states %s' % {s.initial for s in got})
        for ini in {s.initial for s in cur}:
            a = [s for s in got if s.initial == ini]
            b = [s for s in cur if s.initial == ini]
            e = rho_distance(a, b, keep)
            mon.maximum('max_dev_density', e)
            mon.check(e <= TOL, lambda: what + ': density matrix of %s is not the partial trace, off by %g' % (ini, e))
            mon.close(sum(s.weight * s.norm2() for s in a), sum(s.weight * s.norm2() for s in b), TOL, lambda: what + ': weight of ' + ini)
            if len(a) > len(b):
                mon.event('pure_state_became_mixture')
                nontrivial = True
            elif len(b) > 1 and len(keep) < nch:
                nontrivial = True
            # classical values and history travel with the weight
            wa, wb = {}, {}
            for s in a:
                k = (tuple(map(ref.canon, s.classical)), tuple((tuple(map(ref.canon, v)), round(p, 6)) for v, p in s.history))
                wa[k] = wa.get(k, 0) + s.weight
            for s in b:
                k = (tuple(ref.canon(s.classical[x]) for x in keepc), tuple((tuple(map(ref.canon, v)), round(p, 6)) for v, p in s.history))
                wb[k] = wb.get(k, 0) + s.weight * s.norm2()
            mon.check(set(wa) == set(wb), lambda: what + ': classical values and histories %s, expected %s' % (wa, wb))
            for k in wb:
                mon.close(wa[k], wb[k], TOL, what + ': weight of classical values %s' % (k,))
        for s in got:
            mon.close(s.norm2(), 1, TOL, what + ': state not normalised')
        mon.check(len(set(map(id, col.values()))) == len(col), what + ': identifiers share a state')
        for x, s1 in enumerate(col.values()):       # states of one origin do not share data
            for y, s2 in enumerate(col.values()):
                if x < y:
                    mon.check(s1.measurement_results is not s2.measurement_results and
                              s1.classical_channel_values is not s2.classical_channel_values and
                              not any(m is n for m in s1.measurement_results for n in s2.measurement_results) and
                              not any(p is q for p in s1.optical_components.values() for q in s2.optical_components.values()),
                              what + ': resulting states share data')
        if len(keep) == nch and keep == sorted(keep) and len(got) == len(cur):
            mon.check(len(ids) == len(col), what + ': number of states')
        mon.event('reductions')
        mon.event('density_matrices_compared', len({s.initial for s in cur}))
        if cla and len(cla) < ncl:
            mon.event('classical_reductions')
        if step:
            mon.event('repeated_reductions')
        # a reduced collection behaves as any other
        small = newsp['L'] ** newsp['nch'] <= 300
        d = col.density_matrix() if small else {}
        for ini in d:
            m = np.asarray(d[ini]['density_matrix'])
            perm = rho([s for s in got if s.initial == ini], ref.Notation(newsp['L'], newsp['nch'], True))
            mon.check(min(np.abs(m - perm).max(), np.abs(m - perm.T).max()) <= 1e-5, what + ': density_matrix() disagrees with the states')
        cp = col.copy()
        mon.check(gen.fingerprint(cp) == gen.fingerprint(col), what + ': copy differs')
        mon.check(cp._threshold_probability_for_setting_to_zero == col._threshold_probability_for_setting_to_zero == sp['thr'],
                  lambda: what + ': the copy of the reduced collection rounds at %g, the circuit at %g' % (cp._threshold_probability_for_setting_to_zero, sp['thr']))
        cur, cursp = got, newsp
    if cur and small and rng.random() < 0.5:
        ops = [gen.op(rng, cursp, ref.OPTICAL) for _ in range(2)]
        if cursp['ncl']:
            ops.append(gen.op(rng, cursp, ('measure',)))
        c2, _ = gen.build(cursp, ops)
        want = cur
        for o in ops:
            want = ref.step(cursp, o, want)
        res = gen.observe(c2.evaluate_circuit(col), cursp, mon)
        for ini in {s.initial for s in want}:
            n2 = gen.notation(cursp)
            e = np.abs(rho([s for s in res if s.initial == ini], n2) - rho([s for s in want if s.initial == ini], n2)).max()
            mon.check(e <= 3e-4, lambda: 'evaluating %s after %s: density matrix of %s off by %g' % (ops, log, ini, e))
        mon.event('evaluations_after_reduction')
    if nontrivial:
        mon.nontrivial(sp['L'], sp['nch'], sp['ncl'], sp['left'], log, [sorted(s.amps) for s in states])
        mon.sample(dict(spec=sp, reductions=log, states_in=len(states), states_out=len(cur)))
