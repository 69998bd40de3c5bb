"""Circuits with spectral, correlated-pair, Hamiltonian and bridge nodes, as programs of plain data."""
import math

from mon import gen, ref

import fock_state_circuit as fsc

DELAYS = ('time_delay_full', 'time_delay_classical_control_full', 'time_delay', 'time_delay_classical_control')


def delay_op(rng, sp, kinds=DELAYS):
    k = rng.choice([d for d in kinds if sp['ncl'] or 'classical' not in d])
    ch = rng.sample(range(sp['nch']), rng.randint(1, sp['nch'] - 1))
    o = dict(kind=k, channels=ch, width=rng.choice([1.0, 1, 0.5, 2.0, rng.uniform(0.3, 3)]))
    if 'classical' in k:
        o['cc'] = rng.randrange(sp['ncl'])
    else:
        o['delay'] = rng.choice([0, 0.0, 1.0, -0.5, 0.3, 50.0, rng.uniform(-2, 2)])
    return o


def width_op(rng, sp):
    return dict(kind='set_pulse_width', channels=rng.choice([None, rng.sample(range(sp['nch']), rng.randint(1, sp['nch']))]),
                width=rng.uniform(0.3, 3))


def pair_op(rng, sp, pairs=1):
    ch = rng.sample(range(sp['nch']), 4 * pairs)
    q = rng.choice([1, 1, 0.5, 2, 3, rng.uniform(0.3, 4)])
    return dict(kind='pr', pairs=[(ch[4 * i:4 * i + 4], q) for i in range(pairs)])


WORDS = ('c0 a0', 'c1 a1', 'c0 a1 + c1 a0')


def add_op(c, o):
    k = o['kind']
    before = len(c.node_list)
    if k in ('time_delay_full', 'time_delay'):
        getattr(c, k)(affected_channels=list(o['channels']), delay=o['delay'], pulse_width=o['width'])
    elif k in ('time_delay_classical_control_full', 'time_delay_classical_control'):
        getattr(c, k)(affected_channels=list(o['channels']), classical_channel_for_delay=o['cc'], pulse_width=o['width'])
    elif k == 'set_pulse_width':
        c.set_pulse_width(affected_channels=None if o['channels'] is None else list(o['channels']), pulse_width=o['width'])
    elif k == 'pr':
        c.popescu_rohrlich_correlation_gate(pr_correlation=[
            {'channels_Ah_Av_Bh_Bv': list(ch), 'quantumness_indicator': q} for ch, q in o['pairs']])
    elif k == 'ham_plate':
        c.wave_plate_from_hamiltonian(o['a'], o['b'], theta=o['theta'], phi=o['phi'])
    elif k == 'ham_plate_cc':
        c.wave_plate_from_hamiltonian_classical_control(o['a'], o['b'], o['c_theta'], o['c_phi'])
    else:
        return gen.add_op(c, o)
    return list(range(before, len(c.node_list)))


def build(sp, ops, name=None):
    c = gen.circuit(sp, name)
    return c, [add_op(c, o) for o in ops]


def low_states(rng, sp, max_photons, count=None, weights=True, components=2):
    """Input states with few photons, single components or small superpositions of one total number."""
    names = gen.initial_names(rng, 4)
    out = []
    for i in range(count or rng.randint(1, 2)):
        num = rng.randint(1, max_photons)
        pool = [o for o in gen.notation(sp).basis() if sum(o) == num]
        occs = rng.sample(pool, min(len(pool), rng.choice([1, 1, components])))
        amps = [complex(rng.gauss(0, 1), rng.gauss(0, 1)) for _ in occs]
        nrm = math.sqrt(sum(abs(a) ** 2 for a in amps))
        amps = {occs[0]: 1 + 0j} if len(occs) == 1 else {o: a / nrm for o, a in zip(occs, amps)}
        out.append(ref.RState(amps, [rng.choice([0, 1, 0.5, rng.uniform(-2, 2)]) for _ in range(sp['ncl'])],
                              round(rng.uniform(0.2, 1.0), 3) if weights else 1.0, [], names[i]))
    return out


def linear(rng, sp, n, kinds=('half_wave_plate', 'wave_plate', 'mix_50_50', 'swap', 'phase', 'custom_optical')):
    return [gen.op(rng, sp, kinds) for _ in range(n)]
