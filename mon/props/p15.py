"""P15: gates given by Hamiltonians in creation and annihilation operators."""
import cmath

import numpy as np

from mon import gen, ref, special

import fock_state_circuit as fsc

ID = 'P15'
CASES = {'quick': 1600, 'thorough': 40000}
RULE = 'distinct by circuit shape, operators with channels and coefficients, and inputs; non-trivial if an occupation or phase changed'
REQUIRED_EVENTS = ['word:exchange', 'word:number', 'word:kerr', 'word:cross_kerr', 'word:pair_exchange', 'word:chain', 'non_commuting_lists', 'mixed_channel_layouts',
                   'large_coefficients', 'three_channel_operators', 'scattered_channels', 'single_operator_argument', 'ham_plate', 'ham_plate_cc',
                   'plates_compared_with_optical_node', 'different_classical_values', 'superpositions', 'repeated_evaluation', 'multi_digit_names']
MIN_DISTINCT = 30
ASSUMPTIONS = ['total photon number in the affected channels stays below the cut-off and is conserved by the operators', 'tolerance 4e-4']
TOL = 4e-4


def coef(rng, mon):
    m = rng.choice([rng.uniform(0, 1), rng.uniform(0, 1), rng.uniform(1, 4), rng.choice([0, 0.5, 1])])
    if m > 2:
        mon.event('large_coefficients')
    return m


def anti(word, t):
    """t W - conj(t) W^dagger."""
    return [(word, t), (tuple((c, '-' if s == '+' else '+') for c, s in reversed(word)), -t.conjugate())]


def terms(rng, mon, kind, n):
    """Terms of an anti-Hermitian, photon number conserving operator: [([(channel, sign), ...], coefficient)]."""
    t = coef(rng, mon) * cmath.exp(1j * rng.choice([0, rng.uniform(0, 6.3)]))
    c = list(range(n))
    rng.shuffle(c)
    if kind == 'number':
        out = []
        for ch in c[:rng.randint(1, n)]:
            order = rng.choice(['-+', '+-'])
            out.append((tuple((ch, s) for s in order), 1j * coef(rng, mon)))
        return out
    if kind == 'kerr':
        return [(tuple((c[0], s) for s in rng.choice(['-+-+', '--++'])), 1j * coef(rng, mon))]
    if kind == 'cross_kerr':
        return [(((c[0], '-'), (c[0], '+'), (c[1], '-'), (c[1], '+')), 1j * coef(rng, mon))]
    if kind == 'exchange':
        return anti(((c[0], '+'), (c[1], '-')), t)
    if kind == 'pair_exchange':
        return anti(((c[0], '+'), (c[0], '+'), (c[1], '-'), (c[1], '-')), t * 0.3)
    if kind == 'chain':
        out = []
        for x, y in zip(c, c[1:]):
            out += anti(((x, '+'), (y, '-')), coef(rng, mon) * cmath.exp(1j * rng.uniform(0, 6.3)))
        return out
    raise KeyError(kind)


def spell(rng, ts, n, wide):
    """Write the terms as strings over a common list of operator channels; the order per channel is kept."""
    need = [max([sum(1 for c, _ in w if c == ch) for w, _ in ts] + [1]) for ch in range(n)]
    if wide:
        need = [max(x, 2) for x in need]
    layout = [ch for ch in range(n) for _ in range(need[ch])]
    out = []
    for w, t in ts:
        s = ''
        for ch in range(n):
            marks = [m for c, m in w if c == ch]
            s += ''.join(marks) + '0' * (need[ch] - len(marks))
        out.append((s, t))
    return fsc.Hamiltonian(operators=out, operator_channels=layout)


def sector(n, total):
    if n == 1:
        return [(total,)]
    return [(k,) + r for k in range(total + 1) for r in sector(n - 1, total - k)]


def evolve(ts, n, total):
    """exp of the operator within one photon number: basis and matrix [in, out]."""
    basis = sector(n, total)
    where = {b: i for i, b in enumerate(basis)}
    g = np.zeros((len(basis), len(basis)), complex)
    for i, b in enumerate(basis):
        for w, t in ts:
            occ, f = list(b), complex(t)
            for ch in range(n):
                for c, m in w:
                    if c != ch:
                        continue
                    if m == '+':
                        occ[c] += 1
                        f *= occ[c] ** 0.5
                    else:
                        f *= max(occ[c], 0) ** 0.5
                        occ[c] -= 1
            if f != 0:
                g[i, where[tuple(occ)]] += f
    e, v = np.linalg.eigh(1j * g)          # g is anti-Hermitian
    return basis, (v * np.exp(-1j * e)) @ v.conj().T


def apply(amps, ts, n, channels):
    cache, out = {}, {}
    for occ, a in amps.items():
        sub = tuple(occ[c] for c in channels)
        k = sum(sub)
        if k not in cache:
            cache[k] = evolve(ts, n, k)
        basis, m = cache[k]
        for b, f in zip(basis, m[basis.index(sub)]):
            new = list(occ)
            for c, v in zip(channels, b):
                new[c] = v
            new = tuple(new)
            out[new] = out.get(new, 0) + a * f
    return out


def inputs(rng, sp, channels, mon):
    L, out = sp['L'], []
    note = gen.notation(sp)
    for i in range(rng.randint(1, 3)):
        amps = {}
        for _ in range(rng.choice([1, 1, 2, 4])):
            occ = [rng.randrange(L) for _ in range(sp['nch'])]
            tot = rng.randint(0, L - 1)
            if rng.random() < 0.85:
                tot = max(tot, 1)
            for c in channels:
                occ[c] = 0
            for _ in range(tot):
                occ[rng.choice(channels)] += 1
            amps[tuple(occ)] = complex(rng.gauss(0, 1), rng.gauss(0, 1))
        nrm = sum(abs(a) ** 2 for a in amps.values()) ** 0.5
        amps = {o: a / nrm for o, a in amps.items()}
        if len(amps) > 1:
            mon.event('superpositions')
        out.append(ref.RState(amps, [rng.choice([0, 1, rng.uniform(-4, 7)]) for _ in range(sp['ncl'])], round(rng.uniform(0.1, 1), 3), [], 'in%d' % i))
        if sp['ncl'] and rng.random() < 0.3:
            out[-1].history.append((list(out[-1].classical), 0.5))
    return out


def run_case(rng, mon, idx, tier):
    if idx % 4 == 3:
        return run_plate(rng, mon)
    sp = gen.spec(rng, max_dim=900, lengths=(2, 3, 3, 4, 4, 5, 6), channels=(2, 3, 4, 2, 3, 4, 5), ncl=(0, 2))
    if idx % 40 == 0:
        sp = dict(sp, L=11, nch=2)
        mon.event('multi_digit_names')
    L, nch = sp['L'], sp['nch']
    n = rng.randint(1, min(nch, 3 if L <= 4 else 2))
    c = gen.circuit(sp)
    states = inputs(rng, sp, range(nch), mon)
    want = [s.copy() for s in states]
    shown, first = [], None
    for _ in range(rng.choice([1, 1, 2])):
        channels = rng.sample(range(nch), n)
        kinds = ['number', 'kerr'] if n == 1 else ['exchange', 'number', 'kerr', 'cross_kerr', 'pair_exchange', 'chain', 'exchange']
        lst = [(k, terms(rng, mon, k, n)) for k in [rng.choice(kinds) for _ in range(rng.choice([1, 2, 2, 3]))]]
        wide = [rng.random() < 0.5 for _ in lst]
        hams = [spell(rng, ts, n, w) for (_, ts), w in zip(lst, wide)]
        if len(set(tuple(h.operator_channels) for h in hams)) > 1:
            mon.event('mixed_channel_layouts')
        arg = hams
        if len(hams) == 1 and rng.random() < 0.5:
            arg = hams[0]
            mon.event('single_operator_argument')
        c.hamiltonian_operator_gate(channels=list(channels), operators=arg)
        shown.append((channels, [(h.operators, h.operator_channels) for h in hams]))
        if n == 3:
            mon.event('three_channel_operators')
        if channels != sorted(channels) or channels[-1] - channels[0] >= n:
            mon.event('scattered_channels')
        for k, _ in lst:
            mon.event('word:' + k)
        for s in want:
            rev = s.amps
            for _, ts in lst:
                s.amps = apply(s.amps, ts, n, channels)
            if len(lst) > 1:
                for _, ts in lst[::-1]:
                    rev = apply(rev, ts, n, channels)
                if ref.amp_distance(rev, s.amps) > 0.05:
                    mon.event('non_commuting_lists')
    what = 'gates %s on %s in %s' % (shown, [gen.show(s.amps) for s in states], sp)
    col = gen.collection(c, sp, states)
    got = gen.observe(c.evaluate_circuit(col), sp, mon)
    gen.compare(mon, got, want, TOL, what)
    if rng.random() < 0.25:
        gen.compare(mon, gen.observe(c.evaluate_circuit(col), sp, mon), want, TOL, 'second evaluation of ' + what)
        mon.event('repeated_evaluation')
    if any(ref.amp_distance(s.amps, w.amps) > 0.01 for s, w in zip(states, want)):
        mon.nontrivial(sp, shown, [sorted(s.amps) for s in states])
        mon.sample(dict(spec=sp, gates=repr(shown)[:600]))


def run_plate(rng, mon):
    sp = gen.spec(rng, max_dim=500, lengths=(2, 3, 4, 5, 6), channels=(2, 3, 4, 2, 3, 4, 5), ncl=(1, 3))
    states = inputs(rng, sp, range(sp['nch']), mon)
    ops = []
    for _ in range(rng.choice([1, 1, 2])):
        a, b = rng.sample(range(sp['nch']), 2)
        if rng.random() < 0.5:
            o = dict(kind='ham_plate', a=a, b=b, theta=gen.angle(rng), phi=gen.angle(rng))
        else:
            o = dict(kind='ham_plate_cc', a=a, b=b, c_theta=rng.randrange(sp['ncl']), c_phi=rng.randrange(sp['ncl']))
        mon.event(o['kind'])
        ops.append(o)
        if rng.random() < 0.3:
            ops.append(gen.op(rng, sp, ('wave_plate', 'phase', 'set_classical', 'classical_function')))
    plain = [dict(o, kind=o['kind'].replace('ham_plate', 'wave_plate')) for o in ops]
    want = states
    for o in plain:
        want = ref.step(sp, o, want)
    if len({tuple(s.classical) for s in states}) > 1 and any(o['kind'] == 'ham_plate_cc' for o in ops):
        mon.event('different_classical_values')
    what = '%s on %s in %s' % (ops, [(gen.show(s.amps), s.classical) for s in states], sp)
    c, _ = special.build(sp, ops)
    got = gen.observe(c.evaluate_circuit(gen.collection(c, sp, states)), sp, mon)
    gen.compare(mon, got, want, TOL, what)
    twin = gen.build(sp, plain)
    twin = twin[0] if isinstance(twin, tuple) else twin
    gen.compare(mon, gen.observe(twin.evaluate_circuit(gen.collection(twin, sp, states)), sp, mon), want, TOL, 'optical twin of ' + what)
    mon.event('plates_compared_with_optical_node')
    mon.nontrivial(sp, ops, [sorted(s.amps) for s in states])
