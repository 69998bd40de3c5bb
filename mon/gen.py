"""Workload generators: circuit programs as plain data, circuits and collections built through the public API."""
import cmath
import math

import numpy as np

from mon import ref

import fock_state_circuit as fsc


def spec(rng, max_dim=300, lengths=(2, 3, 4, 5), channels=(2, 3, 4, 2, 3, 4, 5, 6), ncl=(0, 3), thr=1e-12, left=None, full=None):
    while True:
        L, n = rng.choice(lengths), rng.choice(channels)
        if L ** n <= max_dim:
            break
    if isinstance(ncl, tuple):
        # now and then more classical channels than one digit counts
        ncl = rng.randint(10, 12) if ncl[1] >= 3 and rng.random() < 0.04 else rng.randint(*ncl)
    return dict(L=L, nch=n, ncl=ncl,
                left=rng.random() < 0.7 if left is None else left,
                full=rng.random() < 0.35 if full is None else full, thr=thr)


def huge_spec(rng, ncl=(1, 4)):
    """A circuit whose basis can never be listed; only what does not need the list can be done with it."""
    L, n = rng.choice([(10, 12), (10, 25), (100, 8), (100, 20), (2, 40), (2, 80), (3, 50), (11, 15), (1000, 7), (7, 30)])
    return dict(L=L, nch=n, ncl=rng.randint(*ncl), left=rng.random() < 0.6, full=rng.random() < 0.35, thr=1e-12)


def notation(sp):
    return ref.Notation(sp['L'], sp['nch'], sp['left'])


def circuit(sp, name=None):
    return fsc.FockStateCircuit(length_of_fock_state=sp['L'], no_of_optical_channels=sp['nch'],
                                no_of_classical_channels=sp['ncl'], channel_0_left_in_state_name=sp['left'],
                                threshold_probability_for_setting_to_zero=sp['thr'],
                                use_full_fock_matrix=sp['full'], circuit_name=name)


# --- operations -------------------------------------------------------------------------------------
SPECIAL_ANGLES = [0.0, math.pi / 8, math.pi / 4, math.pi / 2, math.pi, -math.pi / 4, 3 * math.pi / 2, 2 * math.pi]


def angle(rng):
    if rng.random() < 0.3:
        return rng.choice(SPECIAL_ANGLES)
    return rng.uniform(-2 * math.pi, 2 * math.pi)


def random_unitary2(rng):
    a, b, g, t = (rng.uniform(0, 2 * math.pi) for _ in range(4))
    c, s = math.cos(t), math.sin(t)
    e = cmath.exp(1j * g)
    return [[e * c * cmath.exp(1j * a), e * s * cmath.exp(1j * b)],
            [-e * s * cmath.exp(-1j * b), e * c * cmath.exp(-1j * a)]]


def random_unitary(rng, n):
    z = np.array([[complex(rng.gauss(0, 1), rng.gauss(0, 1)) for _ in range(n)] for _ in range(n)])
    q, r = np.linalg.qr(z)
    return q * (np.diag(r) / abs(np.diag(r)))


def reflection(rng):
    while True:
        r = rng.choice([0.0, 1.0, 0.5, 0.25, 0.75, rng.random()])
        if r + (1 - r) == 1:
            return r


def op(rng, sp, kinds):
    n = sp['nch']
    while True:
        k = rng.choice(kinds)
        if k in ('pbs', 'npbs', 'npbs_50_50') and n < 4:
            continue
        if k in ('phase_cc', 'wave_plate_cc', 'measure', 'set_classical', 'classical_function') and sp['ncl'] < 1:
            if set(kinds) <= {'phase_cc', 'wave_plate_cc', 'measure', 'set_classical', 'classical_function'}:
                raise ValueError('no classical channels')
            continue
        break
    a, b = rng.sample(range(n), 2)
    o = dict(kind=k)
    if k in ('wave_plate',):
        o.update(a=a, b=b, theta=angle(rng), phi=angle(rng))
    elif k in ('half_wave_plate', 'quarter_wave_plate'):
        o.update(a=a, b=b, theta=angle(rng))
    elif k in ('half_wave_plate_45', 'half_wave_plate_225', 'quarter_wave_plate_45', 'quarter_wave_plate_225',
               'swap', 'mix_50_50'):
        o.update(a=a, b=b)
    elif k == 'mix_generic':
        o.update(a=a, b=b, refl=reflection(rng))
    elif k in ('pbs', 'npbs', 'npbs_50_50'):
        ch = rng.sample(range(n), 4)
        o.update(ca=ch[:2], cb=ch[2:])
        if k == 'npbs':
            o['refl'] = reflection(rng)
    elif k == 'custom_optical':
        o.update(a=a, b=b, matrix=random_unitary2(rng))
    elif k == 'phase':
        o.update(ch=a, phi=angle(rng))
    elif k == 'phase_cc':
        o.update(ch=a, cc=rng.randrange(sp['ncl']))
    elif k == 'wave_plate_cc':
        o.update(a=a, b=b, c_theta=rng.randrange(sp['ncl']), c_phi=rng.randrange(sp['ncl']))
    elif k == 'measure':
        m = rng.randint(1, min(n, sp['ncl']))
        o.update(optical=rng.sample(range(n), m), classical=rng.sample(range(sp['ncl']), m))
    elif k == 'set_classical':
        m = rng.randint(1, sp['ncl'])
        vals = [rng.choice([rng.randint(-3, 9), angle(rng)]) for _ in range(m)]
        o.update(channels=rng.sample(range(sp['ncl']), m), values=vals)
    elif k == 'classical_function':
        m = rng.randint(1, sp['ncl'])
        o.update(fn=rng.choice(sorted(ref.CLASSICAL_FUNCTIONS)), channels=rng.sample(range(sp['ncl']), m),
                 values=[rng.randint(-2, 5) for _ in range(m)])
    elif k in ('shift', 'shift_direct'):
        m = rng.randint(1, n)
        o.update(targets=[rng.randrange(n) for _ in range(m)], shifts=[rng.randint(0, 2 * sp['L']) for _ in range(m)])
    elif k in ('c_shift', 'c_shift_direct'):
        m = rng.randint(1, 3)
        pairs = [rng.sample(range(n), 2) for _ in range(m)]
        o.update(controls=[p[0] for p in pairs], targets=[p[1] for p in pairs])
    elif k == 'custom_fock':
        d = sp['L'] ** n
        o.update(matrix=random_unitary(rng, d))
    else:
        raise KeyError(k)
    return o


def add_op(c, o):
    """Add the operation to the circuit under test, return the indices of the nodes it made."""
    k = o['kind']
    before = len(c.node_list)
    if k == 'wave_plate':
        c.wave_plate(o['a'], o['b'], theta=o['theta'], phi=o['phi'])
    elif k == 'half_wave_plate':
        c.half_wave_plate(o['a'], o['b'], angle=o['theta'])
    elif k == 'quarter_wave_plate':
        c.quarter_wave_plate(o['a'], o['b'], angle=o['theta'])
    elif k in ('half_wave_plate_45', 'half_wave_plate_225', 'quarter_wave_plate_45', 'quarter_wave_plate_225',
               'swap', 'mix_50_50'):
        getattr(c, k)(o['a'], o['b'])
    elif k == 'mix_generic':
        c.mix_generic_refl_transm(o['a'], o['b'], reflection=o['refl'], transmission=1 - o['refl'])
    elif k == 'pbs':
        c.polarizing_beamsplitter(tuple(o['ca']), tuple(o['cb']))
    elif k == 'npbs':
        c.non_polarizing_beamsplitter(tuple(o['ca']), tuple(o['cb']), reflection=o['refl'], transmission=1 - o['refl'])
    elif k == 'npbs_50_50':
        c.non_polarizing_50_50_beamsplitter(tuple(o['ca']), tuple(o['cb']))
    elif k == 'custom_optical':
        c.custom_optical_node(np.array(o['matrix'], dtype=np.cdouble), [o['a'], o['b']])
    elif k == 'phase':
        c.phase_shift_single_channel(o['ch'], phase_shift=o['phi'])
    elif k == 'phase_cc':
        c.phase_shift_single_channel_classical_control(o['ch'], o['cc'])
    elif k == 'wave_plate_cc':
        c.wave_plate_classical_control(o['a'], o['b'], o['c_theta'], o['c_phi'])
    elif k == 'measure':
        c.measure_optical_to_classical(list(o['optical']), list(o['classical']))
    elif k == 'set_classical':
        c.set_classical_channels(list(o['values']), list(o['channels']))
    elif k == 'classical_function':
        c.classical_channel_function(ref.CLASSICAL_FUNCTIONS[o['fn']][1], affected_channels=list(o['channels']),
                                     new_input_values=list(o['values']))
    elif k == 'shift':
        c.shift(list(o['targets']), list(o['shifts']))
    elif k == 'shift_direct':
        c.shift_direct(list(o['targets']), list(o['shifts']))
    elif k == 'c_shift':
        c.c_shift(list(o['controls']), list(o['targets']))
    elif k == 'c_shift_direct':
        c.c_shift_direct(list(o['controls']), list(o['targets']))
    elif k == 'custom_fock':
        c.custom_fock_state_node(np.array(o['matrix'], dtype=np.cdouble))
    else:
        raise KeyError(k)
    return list(range(before, len(c.node_list)))


def build(sp, ops, name=None):
    c = circuit(sp, name)
    groups = [add_op(c, o) for o in ops]
    return c, groups


# --- input states -----------------------------------------------------------------------------------
def random_occ(rng, sp, max_photons=None):
    L, n = sp['L'], sp['nch']
    while True:
        occ = tuple(rng.randrange(L) for _ in range(n))
        if max_photons is None or sum(occ) <= max_photons:
            return occ
        if rng.random() < 0.2:
            return tuple([0] * n)


def random_amps(rng, sp, fixed_number=None, max_components=6):
    """Normalised random superposition."""
    n = rng.choice([1, 1, 2, 3, max_components])
    occs = set()
    if fixed_number is not None:
        pool = [o for o in notation(sp).basis() if sum(o) == fixed_number]
        occs = set(rng.sample(pool, min(n, len(pool))))
    else:
        for _ in range(n):
            occs.add(random_occ(rng, sp))
    occs = sorted(occs)
    rng.shuffle(occs)
    if len(occs) == 1 and rng.random() < 0.7:
        return {occs[0]: 1.0 + 0j}
    amps = [complex(rng.gauss(0, 1), rng.gauss(0, 1)) for _ in occs]
    nrm = math.sqrt(sum(abs(a) ** 2 for a in amps))
    return {o: a / nrm for o, a in zip(occs, amps)}


def random_classical(rng, sp):
    return [rng.choice([0, rng.randint(-3, 9), angle(rng)]) for _ in range(sp['ncl'])]


NAME_SCHEMES = ['in%d', 'in%d', 'in%d', '%d', 'x{0}', '0{0}', 'A{1}', ' {0}', '[%d]', 'in%d-in', '-{0}', '{2}']


def initial_names(rng, count):
    """Names for initial states: ordinary ones, and ones contained in each other or looking like something else."""
    scheme = rng.choice(NAME_SCHEMES)
    if '%d' in scheme:
        return [scheme % i for i in range(count)]
    return [scheme.format('x' * i, 'B' * (count - i), '0' * (i + 1)) for i in range(count)]


def rstates(rng, sp, count=None, fixed_number=None, weights=False):
    count = count or rng.randint(1, 3)
    names = initial_names(rng, count)
    out = []
    for i in range(count):
        num = fixed_number
        if num is None and rng.random() < 0.5 and sp['L'] ** sp['nch'] <= 100000:
            num = rng.randint(0, min((sp['L'] - 1) * sp['nch'], 5))
        out.append(ref.RState(random_amps(rng, sp, num), random_classical(rng, sp),
                              round(rng.uniform(0.05, 1.0), 4) if weights else 1.0, [], names[i]))
    return out


def scaled(rng, states, mon):
    """Some of the states with a norm a little or much below one."""
    for r in states:
        if rng.random() < 0.1:
            f = rng.choice([0.999, 0.995, 0.97, 0.8, 0.5, 0.1]) * rng.choice([1, 1j])
            r.amps = {o: a * f for o, a in r.amps.items()}
            mon.event('not_normalised')
    return states


def add_rstate(col, sp, r, identifier=None, auxiliary=None):
    note = notation(sp)
    s = fsc.State(col)
    s.initial_state = r.initial
    s.optical_components = {note.name(o): {'amplitude': np.cdouble(a), 'probability': float(abs(a) ** 2)}
                            for o, a in r.amps.items()}
    s.classical_channel_values = list(r.classical)
    s.cumulative_probability = r.weight
    s.measurement_results = [{'measurement_results': list(v), 'probability': p} for v, p in r.history]
    if auxiliary:
        s.auxiliary_information = auxiliary
    col.add_state(s, identifier=identifier)
    return s


def collection(c, sp, states, identifiers=None):
    col = fsc.CollectionOfStates(c, input_collection_as_a_dict={})
    for i, r in enumerate(states):
        add_rstate(col, sp, r, identifiers[i] if identifiers else 'id-%d-%s' % (i, r.initial))
    return col


# --- reading back what the code produced -----------------------------------------------------------
def observe_state(s, sp, mon=None):
    """Abstract content of a real state, with the structural invariants of a state monitored on the way."""
    note = notation(sp)
    amps = {}
    for name, ap in s.optical_components.items():
        occ = note.occ(name)
        if mon is not None:
            mon.check(occ not in amps, 'component %r occurs twice' % (name,))
            mon.close(abs(ap['amplitude']) ** 2, ap['probability'], 2e-5,
                      lambda: 'probability of component %r is not |amplitude|^2' % (name,))
        amps[occ] = complex(ap['amplitude'])
    hist = [(list(m['measurement_results']), float(m['probability'])) for m in s.measurement_results]
    if mon is not None:
        mon.check(len(s.classical_channel_values) == sp['ncl'], 'number of classical values changed')
        mon.check(-1e-6 <= s.cumulative_probability <= 1 + 1e-4, 'cumulative probability outside [0,1]')
        mon.event('states_observed')
    return ref.RState(amps, [v for v in s.classical_channel_values], float(s.cumulative_probability), hist,
                      s.initial_state)


def observe(col, sp, mon=None):
    return [observe_state(s, sp, mon) for _, s in col.items()]


def fingerprint(col, sp=None):
    """Everything a user can see of a collection, as comparable plain data."""
    out = []
    for ident, s in col.items():
        out.append((ident, s.initial_state, repr(s.cumulative_probability),
                    tuple((n, repr(complex(ap['amplitude'])), repr(float(ap['probability'])))
                          for n, ap in s.optical_components.items()),
                    tuple(repr(v) for v in s.classical_channel_values),
                    tuple(sorted((k, repr(v)) for m in s.measurement_results for k, v in m.items())),
                    repr(sorted(s.auxiliary_information.keys(), key=str))))
    return tuple(out)


def compare(mon, got, want, tol, what, check_history=True, weight_tol=None):
    """Match two mixtures state by state through their event identity and compare contents."""
    weight_tol = weight_tol or tol
    wd, gd = {}, {}
    for r in want:
        wd.setdefault(r.key(), []).append(r)
    for r in got:
        gd.setdefault(r.key(), []).append(r)
    # branches whose weight is numerically nothing may be present or absent
    for k in list(wd):
        if k not in gd and sum(r.weight for r in wd[k]) < weight_tol:
            del wd[k]
    for k in list(gd):
        if k not in wd and sum(r.weight for r in gd[k]) < weight_tol:
            del gd[k]
    mon.check(set(wd) == set(gd), lambda: '%s: outcomes %s, expected %s' % (
        what, sorted(map(str, gd))[:12], sorted(map(str, wd))[:12]))
    for k in wd:
        mon.check(len(wd[k]) == len(gd[k]), lambda: '%s: %d states for %s, expected %d' % (
            what, len(gd[k]), k, len(wd[k])))
        if len(wd[k]) > 1:
            continue
        g, w = gd[k][0], wd[k][0]
        mon.close(g.weight, w.weight, weight_tol, lambda: '%s: weight of %s' % (what, k), 'weight')
        if w.weight < 1e-3:      # collapsed state of an almost impossible branch is badly conditioned
            mon.event('branches_too_rare_to_compare')
            continue
        scale = 1 / math.sqrt(min(1.0, max(w.weight, 1e-3)))
        d = ref.amp_distance(g.amps, w.amps)
        mon.maximum('max_dev_amplitude', d)
        mon.check(d <= tol * scale, lambda: '%s: amplitudes of %s are %s, expected %s' % (
            what, k, show(g.amps), show(w.amps)))
        mon.check(len(g.classical) == len(w.classical) and
                  all(abs(float(x) - float(y)) <= 1e-6 for x, y in zip(g.classical, w.classical)),
                  lambda: '%s: classical values of %s are %s, expected %s' % (what, k, g.classical, w.classical))
        if check_history:
            mon.check(len(g.history) == len(w.history), lambda: '%s: history length' % what)
            for (gv, gp), (wv, wp) in zip(g.history, w.history):
                mon.close(gp, wp, weight_tol, lambda: '%s: recorded probability of %s' % (what, wv), 'recorded_probability')
        mon.event('states_compared')


def show(amps):
    return '{' + ', '.join('%s: %.5f%+.5fj' % (o, a.real, a.imag)
                           for o, a in sorted(amps.items()) if abs(a) > 1e-7) + '}'


def rich(sp, ops, states):
    """Structural identity of a workload, for counting distinct non-trivial ones."""
    return (sp['L'], sp['nch'], sp['ncl'], sp['left'], sp['full'], tuple(o['kind'] for o in ops),
            tuple((len(s.amps), sum(next(iter(s.amps)))) for s in states))
