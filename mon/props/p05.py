"""P05: Born rule and collapse."""
import math

from mon import gen, ref

ID = 'P05'
CASES = {'quick': 5000, 'thorough': 100000}
RULE = ('distinct by circuit shape, operations, measured channels and input sizes; non-trivial if a measurement had at least two '
        'outcomes')
REQUIRED_EVENTS = ['measurements_monitored', 'branches_observed', 'repeated_measurements', 'measurements_with_hundreds_of_outcomes']
MIN_DISTINCT = 30
ASSUMPTIONS = ['tolerance 2e-4']
TOL = 2e-4


def many_outcomes(rng, mon, tier):
    """One measurement with hundreds of outcomes."""
    L, n = rng.choice([(9, 3), (10, 3), (5, 4), (6, 4), (27, 2), (32, 2), (3, 6)] + [(7, 4), (45, 2), (12, 3)] * (tier == "thorough"))
    sp = dict(L=L, nch=n, ncl=n, left=rng.random() < 0.7, full=False, thr=1e-12)
    note = gen.notation(sp)
    amps = {o: complex(rng.gauss(0, 1), rng.gauss(0, 1)) for o in note.basis()}
    nrm = math.sqrt(sum(abs(a) ** 2 for a in amps.values()))
    states = [ref.RState({o: a / nrm for o, a in amps.items()}, [0] * n, rng.choice([1.0, 0.5]), [], 'all')]
    c = gen.circuit(sp)
    chans = rng.sample(range(n), n)
    for part in ([chans] if rng.random() < 0.5 else [chans[:-1], chans[-1:]] if n > 1 else [chans]):
        c.measure_optical_to_classical(part, part)
    res = gen.observe(c.evaluate_circuit(gen.collection(c, sp, states)), sp, mon)
    got = {}
    for s in res:
        mon.check(len(s.amps) == 1 and tuple(s.classical) == next(iter(s.amps)), 'one of %d outcomes: %s with values %s' % (L ** n, gen.show(s.amps), s.classical))
        mon.check(tuple(s.classical) not in got, 'outcome %s twice' % s.classical)
        got[tuple(s.classical)] = s.weight
        mon.close(s.weight, states[0].weight * abs(states[0].amps[tuple(s.classical)]) ** 2, 1e-6, 'probability of outcome %s of %d' % (s.classical, L ** n))
        mon.event('branches_observed')
    mon.check(len(got) == L ** n, lambda: '%d of %d outcomes of %s' % (len(got), L ** n, sp))
    mon.close(sum(got.values()), states[0].weight, 1e-4, 'total probability of %d outcomes' % L ** n)
    mon.event('measurements_with_hundreds_of_outcomes')
    mon.nontrivial(L, n, sp['left'], chans)


def run_case(rng, mon, idx, tier):
    if idx % 400 == 3:
        return many_outcomes(rng, mon, tier)
    sp = gen.spec(rng, max_dim=260, lengths=(2, 3, 4, 5, 11), ncl=(1, 4))
    huge = idx % 50 == 7
    if huge:
        sp = gen.huge_spec(rng)
        mon.event('unlistable_bases')
    ops = []
    for _ in range(rng.randint(1, 3)):
        for _ in range(rng.randint(0, 2) if not huge else 0):
            ops.append(gen.op(rng, sp, ref.OPTICAL))
        ops.append(gen.op(rng, sp, ('measure',)))
    states = gen.rstates(rng, sp, weights=True)
    if rng.random() < 0.15:      # a component that clean_up() set to zero
        o = gen.random_occ(rng, sp)
        for s in states[:1]:
            s.amps.setdefault(o, 0j)
        mon.event('zero_components')
    c, groups = gen.build(sp, ops)
    cur = gen.collection(c, sp, states)
    split = False
    before = gen.observe(cur, sp, mon)
    for op, nodes in zip(ops, groups):
        nxt = c.evaluate_circuit(cur, nodes)
        after = gen.observe(nxt, sp, mon)
        if op['kind'] == 'measure':
            want = ref.step(sp, op, before)
            what = 'measuring %s into %s' % (op['optical'], op['classical'])
            gen.compare(mon, after, want, TOL, what)
            # conservation of weight per origin, normalisation, history grows by one
            for s in before:
                kids = [a for a in after if a.initial == s.initial and
                        [tuple(map(gen.ref.canon, v)) for v, _ in a.history[:-1]] ==
                        [tuple(map(gen.ref.canon, v)) for v, _ in s.history]]
                mon.close(sum(k.weight for k in kids), s.weight * s.norm2(), TOL, what + ': sum of branch weights', 'weight_sum')
                mon.check(all(len(k.history) == len(s.history) + 1 for k in kids), what + ': history entries')
                for k in kids:
                    if k.weight < 1e-6:      # rounding noise of the single-precision matrices
                        continue
                    mon.close(k.norm2(), 1.0, TOL, what + ': branch not normalised', 'norm')
                    vals = [{tuple(occ[ch] for ch in op['optical']) for occ in k.amps}]
                    mon.check(len(vals[0]) == 1, what + ': branch not collapsed')
                    out = next(iter(vals[0]))
                    mon.check([k.classical[ch] for ch in op['classical']] == list(out), what + ': classical values')
                    mon.check(k.history[-1][0] == k.classical, what + ': recorded values')
                    mon.close(k.history[-1][1], k.weight / s.weight, TOL, what + ': recorded probability')
                    mon.event('branches_observed')
                split = split or len(kids) > 1
            mon.event('measurements_monitored')
            mon.check(len({id(s) for s in nxt.values()}) == len(nxt), 'identifiers share a state')
            # repeating the measurement gives the same result with certainty
            if rng.random() < 0.4:
                rep = gen.observe(c.evaluate_circuit(nxt, nodes), sp, mon)
                mon.check(len(rep) == len(after), what + ': repeated measurement split a branch')
                for r in rep:
                    mon.close(r.history[-1][1], 1.0, TOL, what + ': repeated measurement uncertain')
                    mon.check(r.history[-1][0] == r.history[-2][0], what + ': repeated measurement differs')
                mon.event('repeated_measurements')
        cur, before = nxt, after
    whole = gen.observe(c.evaluate_circuit(gen.collection(c, sp, states)), sp, mon)
    gen.compare(mon, whole, before, TOL, 'whole circuit')
    if split:
        mon.nontrivial(gen.rich(sp, ops, states), [o.get('optical') for o in ops])
        mon.sample(dict(spec=sp, ops=[o['kind'] for o in ops], measured=[o['optical'] for o in ops if 'optical' in o],
                        branches=len(whole)))
