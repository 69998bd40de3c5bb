"""P20: Popescu-Rohrlich correlated photon pairs."""
import collections
import itertools
import math

import fock_state_circuit as fsc
import fock_state_circuit.popescu_rohrlich_correlation_functionality.popescu_rohrlich_correlations as pr_module

from mon import gen, ref, special

ID = 'P20'
CASES = {'quick': 3500, 'thorough': 60000}
RULE = 'distinct by circuit shape, channels and strengths of the pairs, and nodes; non-trivial if both sides of a pair were turned and the correlation was neither 0 nor 1'
REQUIRED_EVENTS = ['deprecated_functions', 'deprecated_node', 'one_pair', 'two_pairs', 'three_pairs', 'quantumness_one', 'stronger', 'weaker', 'linear_polarisation', 'elliptical_polarisation', 'classical_control', 'split_in_space',
                   'other_photons', 'measured_before', 'partial_measurement', 'weights_below_one', 'several_states', 'uncorrelated_angle', 'same_as_entangled', 'unbiased_sides',
                   'correlations_reported', 'used_afterwards', 'reversed_notation', 'history_compared', 'permuted_pair_channels', 'one_history_each']
MIN_DISTINCT = 60
ASSUMPTIONS = ['each photon keeps its own channels', 'one to three pairs', 'tolerance 4e-4, and 1e-5 on the correlation before the power law']
TOL = 4e-4
DELTA = 1e-5
LINEAR = ('half_wave_plate', 'half_wave_plate_225', 'half_wave_plate_45', 'swap', 'mix_50_50')
ELLIPTIC = ('quarter_wave_plate', 'wave_plate', 'custom_optical', 'quarter_wave_plate_45', 'phase', 'wave_plate_cc', 'phase_cc')


def choose(rng, three=False):
    """Circuit shape, pairs, and ports: for every photon the list of (h, v) channel pairs it can be in."""
    pairs = 3 if three else 2 if rng.random() < 0.25 else 1
    spare = 0 if three else rng.choice([0, 1]) if pairs == 2 else rng.choice([0, 0, 1, 2, 2])
    L = 2 if pairs > 1 else rng.choice([2, 3])
    sp = dict(L=L, nch=4 * pairs + spare, left=rng.random() < 0.7, full=False, thr=1e-12)
    sp['ncl'] = sp['nch'] + 3
    ch = rng.sample(range(sp['nch']), sp['nch'])
    prs = [(ch[4 * i:4 * i + 4], rng.choice([1, 1, 1.0, 2, 5, 0.5, 10, 1000, rng.uniform(0.3, 8)])) for i in range(pairs)]
    rest = ch[4 * pairs:]
    ports = [[tuple(c[2 * k:2 * k + 2])] for c, _ in prs for k in (0, 1)]
    if spare == 2 and pairs == 1 and rng.random() < 0.6:
        ports[rng.randrange(2)].append(tuple(rest))
        rest = []
    return sp, prs, ports, rest


def local(rng, sp, hv, kinds, phase):
    """A node acting on one (horizontal, vertical) pair of channels."""
    while True:
        k = rng.choice(kinds)
        if k in ('phase', 'phase_cc') and not phase:
            continue
        o = gen.op(rng, sp, (k,))
        if 'a' in o:
            o['a'], o['b'] = rng.sample(hv, 2)
        if 'ch' in o:
            o['ch'] = rng.choice(hv)
        for c in ('cc', 'c_theta', 'c_phi'):
            if c in o:
                o[c] = sp['nch'] + rng.randrange(3)
        return o


def strength(c, q):
    return math.copysign(abs(c) ** (1 / q), c) if abs(c) > 1e-9 else 0.0


def correlation(a, b):
    """Correlation of '1010' + '0101' behind analysers that pass photons with these amplitudes for h and v."""
    na, nb = sum(abs(x) ** 2 for x in a), sum(abs(x) ** 2 for x in b)
    return 2 * abs(a[0] * b[0] + a[1] * b[1]) ** 2 / (na * nb) - 1


def photon(sp, ops, classical, start):
    """Where a single photon from each of two channels ends up: {channel: (amplitude from h, amplitude from v)}."""
    out = {}
    for i, c in enumerate(start):
        occ = tuple(int(x == c) for x in range(sp['nch']))
        s = [ref.RState({occ: 1 + 0j}, classical, 1.0, [], '')]
        for o in ops:
            s = ref.step(sp, o, s)
        for occ, a in s[0].amps.items():
            out.setdefault(occ.index(1), [0, 0])[i] = a
    return {c: a for c, a in out.items() if sum(abs(x) ** 2 for x in a) > 1e-9}


def predict(sp, prs, ops, fin, s):
    """Outcomes of one state: (occupation, probability, its lowest and highest acceptable value)."""
    per_pair = []
    sides = []
    for chans, q in prs:
        A, B = photon(sp, ops, s.classical, chans[:2]), photon(sp, ops, s.classical, chans[2:])
        sides.append((A, B))
        res = []
        for ca, a in A.items():
            for cb, b in B.items():
                w = sum(abs(x) ** 2 for x in a) * sum(abs(x) ** 2 for x in b) / 4
                c = correlation(a, b)
                lo, mid, hi = (strength(min(1, max(-1, x)), q) for x in (c - DELTA, c, c + DELTA))
                res.append(((ca, cb), w * (1 + mid), w * (1 + lo), w * (1 + hi), c))
        per_pair.append(res)
    rest = [s.copy()]
    for o in ops:
        rest = ref.step(sp, o, rest)
    out = []
    for occ, amp in rest[0].amps.items():
        for combo in itertools.product(*per_pair):
            total = list(occ)
            p, lo, hi = (abs(amp) ** 2,) * 3
            for chs, m, l, h, _ in combo:
                for c in chs:
                    total[c] += 1
                p, lo, hi = p * m, lo * l, hi * h
            cl = list(rest[0].classical)
            for v, c in zip(fin['optical'], fin['classical']):
                cl[c] = total[v]
            out.append((tuple(total), tuple(cl), p, lo, hi))
    return out, sides, [x[4] for r in per_pair for x in r]


def run_case(rng, mon, idx, tier):
    sp, prs, ports, rest = choose(rng, idx % 140 == 3)
    n = sp['nch']
    photons = rng.choice([0, 1]) if rest else 0
    phase = sp['L'] >= 3
    elliptic = rng.random() < 0.6
    kinds = LINEAR + (ELLIPTIC if elliptic else ())
    # input: the channels of the pairs are empty
    states, names = [], gen.initial_names(rng, 4)
    for i in range(rng.choice([1, 1, 2])):
        occs = [tuple(int(c == r) for c in range(n)) for r in rest] if photons else [(0,) * n]
        if len(occs) == 2 and rng.random() < 0.7:
            t = rng.uniform(0, 7)
            amps = {occs[0]: complex(math.cos(t)), occs[1]: complex(0, math.sin(t))}
        else:
            amps = {rng.choice(occs): 1 + 0j}
        states.append(ref.RState(amps, [0] * n + [gen.angle(rng) for _ in range(3)], rng.choice([1.0, round(rng.uniform(0.2, 1), 3)]), [], names[i]))
    pre, ops = [], []
    if photons and len(rest) == 2:
        pre.append(local(rng, sp, tuple(rest), LINEAR[:2], False))
        if rng.random() < 0.6:
            pre.append(dict(kind='measure', optical=rest[:1], classical=[n]))
    if rng.random() < 0.3:
        pre.append(dict(kind='set_classical', channels=[n + 1], values=[gen.angle(rng)]))
    for hv in ports:
        if len(hv) > 1:     # both polarisations are split in the same way over two places
            for _ in range(rng.choice([0, 1])):
                ops.append(local(rng, sp, hv[0], kinds, phase))
            r = gen.reflection(rng)
            ops += [dict(kind='mix_generic', a=hv[0][k], b=hv[1][k], refl=r) for k in (0, 1)]
    for _ in range(rng.choice([2, 3, 4, 5])):
        hv = rng.choice(rng.choice(ports))
        ops.append(local(rng, sp, hv, kinds, phase))
    if rng.random() < 0.35 and len(prs) == 1 and len(ports[0]) == len(ports[1]) == 1:
        # analysers that make the two photons independent, up to rounding
        t = gen.angle(rng)
        (h, v), (k, w) = ports[0][0], ports[1][0]
        ops = [dict(kind='half_wave_plate', a=h, b=v, theta=t), dict(kind='half_wave_plate', a=k, b=w, theta=t + math.pi / 8)]
    if photons and len(rest) == 2 and rng.random() < 0.5:
        ops.insert(rng.randrange(len(ops) + 1), local(rng, sp, tuple(rest), LINEAR[:2], False))
    if rng.random() < 0.3:
        ops.insert(rng.randrange(len(ops) + 1), dict(kind='set_classical', channels=[n + 2], values=[gen.angle(rng)]))
    m = n if rng.random() < 0.6 else rng.randint(1, n)
    fin = dict(kind='measure', optical=rng.sample(range(n), m), classical=rng.sample(range(n), m))
    what = 'pairs %s, before %s, then %s, %s on %s in %s' % (prs, pre, ops, fin, [(s.weight, gen.show(s.amps), s.classical) for s in states], sp)

    c = gen.circuit(sp)
    for o in pre:
        gen.add_op(c, o)
    special.add_op(c, dict(kind='pr', pairs=prs))
    for o in ops + [fin]:
        gen.add_op(c, o)
    col = gen.collection(c, sp, states)
    out = c.evaluate_circuit(col)
    mon.check(not out.has_pr_correlations(), what + ': still marked as correlated after the measurement')
    got = collections.defaultdict(float)
    hist = {}
    for s in gen.observe(out, sp, mon):
        if s.weight < 1e-9:
            continue
        mon.check(len(s.amps) == 1, what + ': measured state in superposition')
        key = (s.initial, tuple(map(ref.canon, s.classical)), next(iter(s.amps)), tuple(tuple(map(ref.canon, v)) for v, _ in s.history))
        got[key] += s.weight
        hist.setdefault(key, []).append([p for _, p in s.history])
    before = [s.copy() for s in states]
    for o in pre:
        before = ref.step(sp, o, before)
    want = {}
    sizes = []
    for s in before:
        res, sides, cs = predict(sp, prs, ops, fin, s)
        sizes += cs
        for occ, cl, p, lo, hi in res:
            key = (s.initial, tuple(map(ref.canon, cl)), occ, tuple(tuple(map(ref.canon, v)) for v, _ in s.history) + (tuple(map(ref.canon, cl)),))
            mon.check(key not in want, 'oracle lists an outcome twice')
            want[key] = (s.weight * p, s.weight * lo, s.weight * hi, [q for _, q in s.history] + [p])
        total = sum(p for _, _, p, _, _ in res)
        mon.check(abs(total - 1) < 1e-6, lambda: 'oracle total %s in %s' % (total, what))
    for key in set(got) | set(want):
        p, lo, hi, rec = want.get(key, (0, 0, 0, None))
        g = got.get(key, 0.0)
        mon.check(lo - TOL <= g <= hi + TOL, lambda: '%s: probability of %s is %s, expected %s (%s to %s)' % (what, key, g, p, lo, hi))
        mon.event('probabilities_compared')
        if key in hist and rec:
            mon.check(len(hist[key]) == 1 and len(hist[key][0]) == len(rec), lambda: '%s: history of %s' % (what, key))
            mon.event('one_history_each')
            if hi - lo < TOL and p > 1e-3:
                for x, y in zip(hist[key][0], rec):
                    mon.close(x, y, 4e-3, lambda: '%s: recorded probabilities of %s' % (what, key))
                mon.event('history_compared')
    # conservation and no signalling do not depend on the power law
    for s in before:
        mine = {k: v for k, v in got.items() if k[0] == s.initial and k[3][:-1] == tuple(tuple(map(ref.canon, v)) for v, _ in s.history)}
        mon.close(sum(mine.values()), s.weight, TOL, lambda: what + ': probabilities do not add up', 'total')
        _, sides, _ = predict(sp, prs, ops, fin, s)
        for i, pair in enumerate(sides):
            for k in (0, 1):
                for ch, a in pair[k].items():
                    p = sum(v for key, v in mine.items() if key[2][ch])
                    mon.close(p, s.weight * sum(abs(x) ** 2 for x in a) / 2, TOL, lambda: '%s: pair %d, side %d is found in channel %d' % (what, i, k, ch), 'marginal')
                    mon.event('unbiased_sides')
    if m == n and fin['optical'] == fin['classical'] or m == n:
        where = dict(zip(fin['optical'], fin['classical']))
        combis = [tuple(where[x] for x in rng.sample(range(n), 2)) for _ in range(2)]
        rep = out.plot_correlations(channel_combis_for_correlation=combis, correlation_output_instead_of_plot=True)
        for s in states:
            mine = {k: v for k, v in got.items() if k[0] == s.initial}
            total = sum(mine.values())
            for (x, y), r in zip(combis, rep[s.initial]):
                e = sum(v * (1 if k[1][x] % sp['L'] == k[1][y] % sp['L'] else -1) for k, v in mine.items()) / total
                mon.close(float(r), e, TOL, lambda: '%s: reported correlation of %s' % (what, (x, y)))
                mon.event('correlations_reported')
    if all(q == 1 for _, q in prs) and not any(o['kind'] == 'measure' for o in pre):
        ordinary(rng, mon, sp, prs, pre, ops, fin, states, got, what)
    if rng.random() < 0.3:
        afterwards(rng, mon, sp, out, what)
    if rng.random() < 0.4:
        deprecated(rng, mon, sp, prs, ops, before[0], what)
    mon.event({1: 'one_pair', 2: 'two_pairs', 3: 'three_pairs'}[len(prs)])
    mon.event('quantumness_one', any(q == 1 for _, q in prs))
    mon.event('stronger', any(q > 1 for _, q in prs))
    mon.event('weaker', any(q < 1 for _, q in prs))
    mon.event('elliptical_polarisation', any(o['kind'] in ELLIPTIC for o in ops))
    mon.event('linear_polarisation', not any(o['kind'] in ELLIPTIC for o in ops))
    mon.event('classical_control', any(o['kind'].endswith('_cc') for o in ops))
    mon.event('split_in_space', any(len(p) > 1 for p in ports))
    mon.event('other_photons', photons)
    mon.event('measured_before', any(o['kind'] == 'measure' for o in pre))
    mon.event('partial_measurement', m < n)
    mon.event('weights_below_one', any(s.weight < 1 for s in states))
    mon.event('several_states', len(states) > 1)
    mon.event('uncorrelated_angle', any(abs(x) < 1e-6 for x in sizes))
    mon.event('reversed_notation', not sp['left'])
    mon.event('permuted_pair_channels', any(list(ch) != sorted(ch) for ch, _ in prs))
    if any(1e-3 < abs(x) < 0.999 for x in sizes):
        mon.nontrivial(sp, prs, [(o['kind'], o.get('a'), o.get('b')) for o in ops])
        mon.sample(dict(spec=sp, pairs=prs, ops=[(o['kind'], o.get('a'), o.get('b')) for o in ops], outcomes=[(k[0], k[2], round(v, 5)) for k, v in sorted(got.items())][:16]))


def ordinary(rng, mon, sp, prs, pre, ops, fin, states, got, what):
    """At strength one the pairs behave like ordinary entangled photons."""
    c = gen.circuit(sp)
    for o in pre + ops + [fin]:
        gen.add_op(c, o)
    entangled = []
    for s in states:
        amps = dict(s.amps)
        for ch, _ in prs:
            new = {}
            for occ, a in amps.items():
                for x, y in ((ch[0], ch[2]), (ch[1], ch[3])):
                    o = list(occ)
                    o[x] += 1
                    o[y] += 1
                    new[tuple(o)] = new.get(tuple(o), 0) + a * math.sqrt(0.5)
            amps = new
        entangled.append(ref.RState(amps, s.classical, s.weight, [], s.initial))
    res = collections.Counter()
    for s in gen.observe(c.evaluate_circuit(gen.collection(c, sp, entangled)), sp, mon):
        res[s.initial, tuple(map(ref.canon, s.classical))] += s.weight
    mine = collections.Counter()
    for (ini, cl, _, _), v in got.items():
        mine[ini, cl] += v
    for k in set(res) | set(mine):
        mon.close(mine[k], res[k], TOL, lambda: '%s: %s differs from ordinary entangled photons' % (what, k))
    mon.event('same_as_entangled')


def afterwards(rng, mon, sp, out, what):
    """The measured collection is an ordinary one."""
    kinds = ('half_wave_plate', 'mix_50_50', 'set_classical', 'measure')
    ops = [gen.op(rng, sp, kinds[:2]), gen.op(rng, sp, kinds[2:])]
    d, _ = gen.build(sp, ops)
    before = gen.observe(out, sp, mon)
    before = [s for s in before if s.weight > 1e-9]
    want = before
    for o in ops:
        want = ref.step(sp, o, want)
    x, y = collections.Counter(), collections.Counter()
    for cnt, lst in ((x, gen.observe(d.evaluate_circuit(out), sp, mon)), (y, want)):
        for s in lst:
            cnt[s.initial, tuple(map(ref.canon, s.classical)), len(s.history)] += s.weight
    for k in set(x) | set(y):
        mon.close(x[k], y[k], TOL, lambda: '%s: %s after continuing with %s' % (what, k, ops))
    mon.event('used_afterwards')


def deprecated(rng, mon, sp, prs, ops, s, what):
    """The deprecated functions and the deprecated node describe the same pairs."""
    boxes = [{'channels_Ah_Av_Bh_Bv': list(c), 'quantumness_indicator': q} for c, q in prs]
    n = sp['nch']
    full = dict(kind='measure', optical=list(range(n)), classical=list(range(n)))
    res, _, _ = predict(sp, prs, ops, full, s)
    want = {occ: (s.weight * lo, s.weight * hi) for occ, _, _, lo, hi in res}
    c, _ = gen.build(sp, ops)
    start = gen.collection(c, sp, [s])
    if rng.random() < 0.6:
        template = next(iter(start))
        made = fsc.create_collection_with_NS_boxes(template, boxes)
        mon.check(made.has_pr_correlations(), what + ': the deprecated function made no pairs')
        out = c.evaluate_circuit(made)
        listed = fsc.measure_collection_with_NS_boxes(out)
        mon.check(len({str(x['output_state']) for x in listed}) == len(listed), lambda: '%s: deprecated function repeats an outcome: %s' % (what, listed))
        got = {tuple(int(v) for v in out._dict_of_valid_component_names[x['output_state']]): float(x['probability']) for x in listed}
        combis = [tuple(rng.sample(range(n), 2)) for _ in range(2)]
        rep = fsc.correlations_from_measured_collection_with_NS_boxes(listed, combis, template)
        for (x, y), r in zip(combis, rep):
            e = sum(p * (1 if k[x] == k[y] else -1) for k, p in got.items()) / sum(got.values())
            mon.close(float(r), e, TOL, lambda: '%s: deprecated correlation of %s' % (what, (x, y)))
        if rng.random() < 0.5:
            again = pr_module.perform_measurement_no_signalling_boxes(out, full['optical'], full['classical'])
            other = collections.defaultdict(float)
            for t in gen.observe(again, sp, mon):
                other[next(iter(t.amps))] += t.weight
                mon.check([ref.canon(v) for v in t.classical[:n]] == [ref.canon(v) for v in next(iter(t.amps))], what + ': deprecated measurement wrote other values')
            for k in set(got) | set(other):
                mon.close(got.get(k, 0), other.get(k, 0), TOL, lambda: '%s: deprecated measurement of %s' % (what, k))
        mon.event('deprecated_functions')
    else:
        d = gen.circuit(sp)
        d.create_no_signalling_boxes(boxes)
        for o in ops:
            gen.add_op(d, o)
        gen.add_op(d, full)
        got = collections.defaultdict(float)
        for t in gen.observe(d.evaluate_circuit(gen.collection(d, sp, [s])), sp, mon):
            if t.weight > 1e-9:
                got[next(iter(t.amps))] += t.weight
                mon.check(t.initial == s.initial, lambda: '%s: deprecated node renamed the state %s' % (what, t.initial))
        mon.event('deprecated_node')
    for k in set(got) | set(want):
        lo, hi = want.get(k, (0, 0))
        mon.check(lo - TOL <= got.get(k, 0) <= hi + TOL, lambda: '%s: deprecated route: probability of %s is %s, expected %s to %s' % (what, k, got.get(k, 0), lo, hi))
