"""P02: conservation laws of unitary linear optics."""
from mon import gen, ref

ID = 'P02'
CASES = {'quick': 3500, 'thorough': 70000}
RULE = ('distinct by circuit shape, kinds of elements and sizes of the superpositions; non-trivial if amplitudes changed '
        'and at least one conservation law was decided on the change')
REQUIRED_EVENTS = ['states_monitored', 'inner_products', 'number_distributions']
MIN_DISTINCT = 30
ASSUMPTIONS = ['custom 2x2 matrices are unitary', 'tolerance 2e-4 (single-precision matrices)']
TOL = 2e-4
KINDS = ref.OPTICAL + ('phase_cc', 'wave_plate_cc')


def number_distribution(amps):
    d = {}
    for occ, a in amps.items():
        d[sum(occ)] = d.get(sum(occ), 0) + abs(a) ** 2
    return d


def inner(x, y):
    return sum(a.conjugate() * y.get(o, 0) for o, a in x.items())


def run_case(rng, mon, idx, tier):
    sp = gen.spec(rng, max_dim=300 if idx % 10 else 1000, lengths=(2, 3, 4, 5, 7, 11), ncl=(0, 3))
    ops = [gen.op(rng, sp, KINDS) for _ in range(rng.randint(1, 7))]
    classical = gen.random_classical(rng, sp)
    states = gen.scaled(rng, gen.rstates(rng, sp, count=rng.randint(2, 4), weights=True), mon)
    names = gen.initial_names(rng, 4)
    for i, s in enumerate(states):
        s.classical = list(classical)
        s.history = [([float(rng.randint(0, 3)) for _ in range(sp['ncl'])], round(rng.random(), 3))
                     for _ in range(rng.randint(0, 2))]
        s.initial = names[i]
    if rng.random() < 0.4:      # an input that overlaps with another one
        o = rng.choice(list(states[0].amps))
        states[1].amps = {o: 1.0 + 0j}
    c, groups = gen.build(sp, ops)
    cur = gen.collection(c, sp, states)
    before = gen.observe(cur, sp, mon)
    steps = groups if rng.random() < 0.6 else [[n for g in groups for n in g]]
    changed = False
    for nodes in steps:
        cur = c.evaluate_circuit(cur, nodes)
        after = {s.initial: s for s in gen.observe(cur, sp, mon)}
        mon.check(len(cur) == len(states) and set(after) == {s.initial for s in before}, 'states lost or invented')
        for b in before:
            a = after[b.initial]
            mon.close(a.norm2(), b.norm2(), TOL, lambda: 'total probability after %s' % ops, 'norm')
            da, db = number_distribution(a.amps), number_distribution(b.amps)
            for n in set(da) | set(db):
                mon.close(da.get(n, 0), db.get(n, 0), TOL, lambda: 'probability of %d photons after %s' % (n, ops), 'photon_number')
            mon.event('number_distributions')
            mon.close(a.weight, b.weight, 1e-9, 'weight changed')
            mon.check(a.classical == b.classical, 'classical values changed by linear optics')
            mon.check(a.history == b.history, 'measurement history changed by linear optics')
            mon.event('states_monitored')
            changed = changed or ref.amp_distance(a.amps, b.amps) > 1e-3
        for i in range(len(before)):
            for j in range(i):
                x = inner(before[i].amps, before[j].amps)
                y = inner(after[before[i].initial].amps, after[before[j].initial].amps)
                mon.close(y, x, TOL, lambda: 'inner product after %s' % ops, 'inner_product')
                mon.event('inner_products')
        before = [after[b.initial] for b in before]
    if changed:
        mon.nontrivial(gen.rich(sp, ops, states))
        mon.sample(dict(spec=sp, ops=[o['kind'] for o in ops], inputs=[gen.show(s.amps) for s in states]))
