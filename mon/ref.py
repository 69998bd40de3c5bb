"""Independent reference model of the documented semantics (double precision, no code shared with the package).

A reference state is the abstract content of one state of a collection: amplitudes per occupation tuple
(channel 0 first), classical values, weight in the statistical mixture and the measurement history.
"""
import cmath
import math

import numpy as np


# --- naming -----------------------------------------------------------------------------------------
class BadName(ValueError):
    """The library reported a name which is no name in the notation of the circuit."""


class Notation:
    """How an occupation list is written as a component name."""

    def __init__(self, length, channels, left=True):
        self.length, self.channels, self.left = length, channels, left
        self.digits = len(str(length - 1))

    def name(self, occ):
        occ = list(occ)
        if not self.left:
            occ = occ[::-1]
        return ''.join(str(v).rjust(self.digits, '0') for v in occ)

    def occ(self, name):
        d = self.digits
        if len(name) != d * self.channels:
            raise BadName('component name %r has the wrong length' % (name,))
        out = [int(name[i * d:(i + 1) * d]) for i in range(self.channels)]
        if not self.left:
            out = out[::-1]
        if any(v >= self.length for v in out):
            raise BadName('component name %r outside the basis' % (name,))
        return tuple(out)

    def index(self, occ):
        return sum(v * self.length ** c for c, v in enumerate(occ))

    def basis(self):
        """All occupations in the standard order (channel 0 runs fastest)."""
        out = []
        for i in range(self.length ** self.channels):
            occ = []
            for _ in range(self.channels):
                occ.append(i % self.length)
                i //= self.length
            out.append(tuple(occ))
        return out


class RState:
    __slots__ = ('amps', 'classical', 'weight', 'history', 'initial')

    def __init__(self, amps, classical, weight=1.0, history=(), initial=''):
        self.amps = dict(amps)
        self.classical = list(classical)
        self.weight = weight
        self.history = [(list(v), p) for v, p in history]
        self.initial = initial

    def copy(self):
        return RState(self.amps, self.classical, self.weight, self.history, self.initial)

    def norm2(self):
        return sum(abs(a) ** 2 for a in self.amps.values())

    def key(self):
        """Unambiguous event identity: origin plus recorded measurement outcomes."""
        return (self.initial, tuple(tuple(canon(x) for x in v) for v, _ in self.history))


def canon(x):
    x = float(x)
    return round(x, 6) + 0.0


# --- optical gates ----------------------------------------------------------------------------------
def wave_plate_matrix(theta, phi):
    c, s, e = math.cos(theta), math.sin(theta), cmath.exp(1j * phi)
    return ((c * c + e * s * s, (1 - e) * c * s), ((1 - e) * c * s, s * s + e * c * c))


_POLY = {}


def two_mode_amplitudes(m, n, k):
    """Amplitudes {(u, v): amp} for n photons in the first and k in the second channel through the coupler m.

    A photon in the first channel goes to m[0][0] first + m[0][1] second, one in the second to
    m[1][0] first + m[1][1] second.
    """
    key = (tuple(map(tuple, m)), n, k)
    if key in _POLY:
        return _POLY[key]
    poly = {0: 1.0 + 0j}       # power of 'first' creation operator -> coefficient (total degree fixed)
    for row, times in ((m[0], n), (m[1], k)):
        for _ in range(times):
            nxt = {}
            for power, coeff in poly.items():
                nxt[power + 1] = nxt.get(power + 1, 0) + coeff * complex(row[0])
                nxt[power] = nxt.get(power, 0) + coeff * complex(row[1])
            poly = nxt
    tot = n + k
    norm = math.sqrt(math.factorial(n) * math.factorial(k))
    out = {(u, tot - u): c * math.sqrt(math.factorial(u) * math.factorial(tot - u)) / norm
           for u, c in poly.items()}
    if len(_POLY) > 20000:
        _POLY.clear()
    _POLY[key] = out
    return out


def apply_coupler(amps, m, a, b, length):
    """Two-channel linear optical element; combinations with length or more photons pass unchanged."""
    out = {}
    for occ, amp in amps.items():
        n, k = occ[a], occ[b]
        if n + k >= length:
            out[occ] = out.get(occ, 0) + amp
            continue
        for (u, v), t in two_mode_amplitudes(m, n, k).items():
            new = list(occ)
            new[a], new[b] = u, v
            new = tuple(new)
            out[new] = out.get(new, 0) + amp * t
    return out


def apply_phase(amps, channel, phi, other, length):
    """Phase shifter on one channel, with the truncation rule of the two-channel element it is made of."""
    out = {}
    for occ, amp in amps.items():
        if occ[channel] + occ[other] >= length:
            out[occ] = amp
        else:
            out[occ] = amp * cmath.exp(1j * phi * occ[channel])
    return out


def apply_matrix(amps, mat, note):
    """Matrix acting on the vector of amplitudes in the standard basis order."""
    basis = note.basis()
    vec = np.zeros(len(basis), dtype=complex)
    for occ, a in amps.items():
        vec[note.index(occ)] = a
    res = np.asarray(mat, dtype=complex) @ vec
    return {basis[i]: complex(res[i]) for i in range(len(basis)) if abs(res[i]) > 0}


def prune(amps, threshold):
    return {o: a for o, a in amps.items() if abs(a) ** 2 >= threshold}


# --- couplers of the optical library: (matrix, first, second) list ---------------------------------
def couplers(op, spec):
    """The elementary two-channel elements of an optical operation."""
    k = op['kind']
    pi = math.pi
    if k == 'wave_plate':
        return [(wave_plate_matrix(op['theta'], op['phi']), op['a'], op['b'])]
    if k == 'half_wave_plate':
        return [(wave_plate_matrix(op['theta'], pi), op['a'], op['b'])]
    if k == 'half_wave_plate_45':
        return [(wave_plate_matrix(pi / 4, pi), op['a'], op['b'])]
    if k == 'half_wave_plate_225':
        return [(wave_plate_matrix(pi / 8, pi), op['a'], op['b'])]
    if k == 'quarter_wave_plate':
        return [(wave_plate_matrix(op['theta'], pi / 2), op['a'], op['b'])]
    if k == 'quarter_wave_plate_45':
        return [(wave_plate_matrix(pi / 4, pi / 2), op['a'], op['b'])]
    if k == 'quarter_wave_plate_225':
        return [(wave_plate_matrix(pi / 8, pi / 2), op['a'], op['b'])]
    if k == 'swap':
        return [(((0, 1), (1, 0)), op['a'], op['b'])]
    if k == 'mix_50_50':
        r = math.sqrt(0.5)
        return [(((r, r), (r, -r)), op['a'], op['b'])]
    if k == 'mix_generic':
        t, r = math.sqrt(1 - op['refl']), math.sqrt(op['refl'])
        # [[cos2a, sin2a],[sin2a, -cos2a]] with tan(a) = sqrt(R/T)
        return [(((t * t - r * r, 2 * t * r), (2 * t * r, r * r - t * t)), op['a'], op['b'])]
    if k == 'pbs':
        return [(((0, 1), (1, 0)), op['ca'][1], op['cb'][1])]
    if k == 'npbs':
        t, r = math.sqrt(1 - op['refl']), math.sqrt(op['refl'])
        m = ((t * t - r * r, 2 * t * r), (2 * t * r, r * r - t * t))
        return [(m, op['ca'][0], op['cb'][0]), (m, op['ca'][1], op['cb'][1])]
    if k == 'npbs_50_50':
        r = math.sqrt(0.5)
        m = ((r, r), (r, -r))
        return [(m, op['ca'][0], op['cb'][0]), (m, op['ca'][1], op['cb'][1])]
    if k == 'custom_optical':
        return [(op['matrix'], op['a'], op['b'])]
    raise KeyError(k)


OPTICAL = ('wave_plate', 'half_wave_plate', 'half_wave_plate_45', 'half_wave_plate_225', 'quarter_wave_plate',
           'quarter_wave_plate_45', 'quarter_wave_plate_225', 'swap', 'mix_50_50', 'mix_generic', 'pbs', 'npbs',
           'npbs_50_50', 'custom_optical', 'phase')


# --- one operation on the whole mixture -------------------------------------------------------------
def shift_occ(occ, pairs, length):
    v = list(occ)
    for target, amount in pairs:
        v[target] = (v[target] + amount) % length
    return tuple(v)


def cshift_occ(occ, pairs, length):
    v = list(occ)
    for control, target in pairs:
        v[target] = (v[target] + v[control]) % length
    return tuple(v)


def measure(state, optical, classical):
    """Born rule: one branch per outcome, collapsed, with classical values written and history extended."""
    groups = {}
    for occ, a in state.amps.items():
        groups.setdefault(tuple(occ[c] for c in optical), {})[occ] = a
    out = []
    for outcome, amps in groups.items():
        p = sum(abs(a) ** 2 for a in amps.values())
        if p <= 0:
            continue
        ns = state.copy()
        ns.amps = {o: a / math.sqrt(p) for o, a in amps.items()}
        ns.weight = state.weight * p
        for i, c in enumerate(classical):
            ns.classical[c] = outcome[i]
        ns.history.append((list(ns.classical), p))
        out.append(ns)
    return out


def phase_partner(channel):
    return 1 if channel == 0 else 0


def step(spec, op, states):
    """Reference semantics of one operation for a list of RState."""
    L = spec['L']
    note = Notation(L, spec['nch'], spec['left'])
    k = op['kind']
    out = []
    for s in states:
        if k == 'measure':
            out += measure(s, op['optical'], op['classical'])
            continue
        n = s.copy()
        if k == 'phase':
            n.amps = apply_phase(n.amps, op['ch'], op['phi'], phase_partner(op['ch']), L)
        elif k in OPTICAL:
            for m, a, b in couplers(op, spec):
                n.amps = apply_coupler(n.amps, m, a, b, L)
        elif k == 'phase_cc':
            n.amps = apply_phase(n.amps, op['ch'], float(s.classical[op['cc']]), phase_partner(op['ch']), L)
        elif k == 'wave_plate_cc':
            m = wave_plate_matrix(float(s.classical[op['c_theta']]), float(s.classical[op['c_phi']]))
            n.amps = apply_coupler(n.amps, m, op['a'], op['b'], L)
        elif k == 'custom_fock':
            n.amps = apply_matrix(n.amps, op['matrix'], note)
        elif k in ('shift', 'shift_direct'):
            n.amps = {shift_occ(o, list(zip(op['targets'], op['shifts'])), L): a for o, a in n.amps.items()}
        elif k in ('c_shift', 'c_shift_direct'):
            n.amps = {cshift_occ(o, list(zip(op['controls'], op['targets'])), L): a for o, a in n.amps.items()}
        elif k == 'set_classical':
            for v, c in zip(op['values'], op['channels']):
                n.classical[c] = v
        elif k == 'classical_function':
            n.classical = CLASSICAL_FUNCTIONS[op['fn']][0](list(n.classical), op['values'], op['channels'])
        else:
            raise KeyError(k)
        n.amps = {o: a for o, a in n.amps.items() if abs(a) > 1e-9}
        out.append(n)
    return out


# pure reference versions and the versions handed to the code under test (some work in place)
def _reverse(cur, new, ch):
    return cur[::-1]


def _rot(cur, new, ch):
    return cur[1:] + cur[:1]


def _add(cur, new, ch):
    cur = list(cur)
    for v, c in zip(new, ch):
        cur[c] = cur[c] + v
    return cur


def _add_inplace(cur, new, ch):
    for v, c in zip(new, ch):
        cur[c] += v
    return cur


def _sum_into(cur, new, ch):
    cur = list(cur)
    cur[ch[0]] = sum(cur)
    return cur


def _sum_inplace(cur, new, ch):
    cur[ch[0]] = sum(cur)
    return cur


def _parity(cur, new, ch):
    return [v % 2 for v in cur]


CLASSICAL_FUNCTIONS = {
    'reverse': (_reverse, _reverse),
    'rotate': (_rot, _rot),
    'add': (_add, _add),
    'add_inplace': (_add, _add_inplace),
    'sum_inplace': (_sum_into, _sum_inplace),
    'parity': (_parity, _parity),
}


# --- distances --------------------------------------------------------------------------------------
def amp_distance(x, y):
    return max([abs(x.get(o, 0) - y.get(o, 0)) for o in set(x) | set(y)] or [0.0])
