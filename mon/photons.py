"""Reference model of partially distinguishable photons.

States are written in first quantisation: an amplitude for every assignment of (channel, arrival time, pulse width) to N
numbered photons, symmetric under permutation.  Wave packets of different labels have the given overlap, so the probability
to find a channel occupation is the sum over pairs of amplitudes with equal channels, weighted with the overlaps of labels.
"""
import collections
import itertools
import math

import numpy as np

from mon import ref

LN2 = math.log(2)


def overlap(x, y):
    if x[1] is None or y[1] is None:
        return 1.0
    return math.exp(-LN2 * (x[0] - y[0]) ** 2 / (x[1] ** 2 + y[1] ** 2))


class Branch:
    def __init__(self, initial, weight, classical, history, tensor):
        self.initial, self.weight, self.classical = initial, weight, list(classical)
        self.history = [(list(v), p) for v, p in history]
        self.tensor = dict(tensor)

    def but(self, weight=None, tensor=None):
        return Branch(self.initial, self.weight if weight is None else weight, self.classical, self.history,
                      self.tensor if tensor is None else tensor)


def from_state(s):
    t = {}
    for occ, a in s.amps.items():
        seq = [c for c, n in enumerate(occ) for _ in range(n)]
        perms = set(itertools.permutations(seq))
        for p in perms:
            t[tuple((c, (0.0, None)) for c in p)] = a / math.sqrt(len(perms))
    return Branch(s.initial, s.weight, s.classical, s.history, t)


def couple(t, m, a, b):
    for i in range(max(map(len, t), default=0)):
        new = collections.defaultdict(complex)
        for k, v in t.items():
            if i < len(k) and k[i][0] in (a, b):
                row = m[0 if k[i][0] == a else 1]
                for c, f in zip((a, b), row):
                    new[k[:i] + ((c, k[i][1]),) + k[i + 1:]] += v * f
            else:
                new[k] += v
        t = {k: v for k, v in new.items() if abs(v) > 1e-13}
    return t


def phase(t, ch, phi):
    return {k: v * np.exp(1j * phi * sum(1 for c, _ in k if c == ch)) for k, v in t.items()}


def relabel(t, fn):
    new = collections.defaultdict(complex)
    for k, v in t.items():
        new[tuple((c, fn(c, lab)) for c, lab in k)] += v
    return dict(new)


def delay(t, channels, tau, width):
    return relabel(t, lambda c, lab: (round(lab[0] - tau, 9) if c in channels else lab[0], lab[1] if width is None else width))


def probabilities(t, channels):
    """Probability of every occupation of the given channels (all photons, whatever their labels)."""
    by = collections.defaultdict(list)
    for k, v in t.items():
        by[tuple(c for c, _ in k)].append((tuple(lab for _, lab in k), v))
    out = collections.defaultdict(float)
    for cs, lst in by.items():
        p = 0.0
        for i, (x, v) in enumerate(lst):
            p += abs(v) ** 2
            for y, w in lst[:i]:
                p += 2 * (v.conjugate() * w).real * math.prod(overlap(a, b) for a, b in zip(x, y))
        out[tuple(cs.count(c) for c in channels)] += p
    return dict(out)


def measure(b, optical, classical):
    out = []
    for outcome, p in probabilities(b.tensor, optical).items():
        if p <= 1e-12:
            continue
        t = {k: v / math.sqrt(p) for k, v in b.tensor.items() if tuple(sum(1 for c, _ in k if c == o) for o in optical) == outcome}
        n = b.but(b.weight * p, t)
        for v, c in zip(outcome, classical):
            n.classical[c] = v
        n.history.append((list(n.classical), p))
        out.append(n)
    return out


def step(sp, o, branches):
    k, out = o['kind'], []
    for b in branches:
        if k in ('time_delay_full', 'time_delay_classical_control_full'):
            tau = float(b.classical[o['cc']]) if 'cc' in o else o['delay']
            out.append(b.but(tensor=delay(b.tensor, o['channels'], tau, o['width'])))
        elif k in ('time_delay', 'time_delay_classical_control'):
            tau = float(b.classical[o['cc']]) if 'cc' in o else o['delay']
            share = math.exp(-LN2 * (tau / o['width']) ** 2)
            together = relabel(b.tensor, lambda c, lab: (0.0, 1))
            apart = relabel(b.tensor, lambda c, lab: (100.0 if c in o['channels'] else -100.0, 1))
            for w, t in ((share, together), (1 - share, apart)):
                if w > 1e-12:
                    out.append(b.but(b.weight * w, t))
        elif k == 'set_pulse_width':
            ch = range(sp['nch']) if o['channels'] is None else o['channels']
            if not len(ch):
                out.append(b)
            else:
                out.append(b.but(tensor=relabel(b.tensor, lambda c, lab: (lab[0], o['width'] if c in ch else (1 if lab[1] is None else lab[1])))))
        elif k == 'measure':
            out += measure(b, o['optical'], o['classical'])
        elif k == 'phase':
            out.append(b.but(tensor=phase(b.tensor, o['ch'], o['phi'])))
        elif k == 'phase_cc':
            out.append(b.but(tensor=phase(b.tensor, o['ch'], float(b.classical[o['cc']]))))
        elif k == 'wave_plate_cc':
            m = ref.wave_plate_matrix(float(b.classical[o['c_theta']]), float(b.classical[o['c_phi']]))
            out.append(b.but(tensor=couple(b.tensor, np.asarray(m), o['a'], o['b'])))
        elif k in ('set_classical', 'classical_function'):
            s = ref.step(sp, o, [ref.RState({}, b.classical)])[0]
            n = b.but()
            n.classical = list(s.classical)
            out.append(n)
        else:
            t = b.tensor
            for m, x, y in ref.couplers(o, sp):
                t = couple(t, np.asarray(m), x, y)
            out.append(b.but(tensor=t))
    return out


def columns(sp, ops, states):
    """Number of single-photon columns the code under test will create for the largest state."""
    most = 0
    for st in states:
        first, cols, reach = True, collections.Counter(st.amps), {c: {c} for c in range(sp['nch'])}
        for o in list(ops) + [dict(kind='measure')]:
            k = o['kind']
            if 'delay' in k or k == 'measure':
                new = collections.Counter()
                for occ, n in cols.items():
                    seq = [c for c, m in enumerate(occ) for _ in range(m)]
                    paths = [tuple(sorted(x)) for x in itertools.product(*[reach[c] for c in seq])]
                    for x in (set(paths) if first else paths):
                        new[tuple(x.count(c) for c in range(sp['nch']))] += n if not first else 1
                if first:
                    new = collections.Counter(set(new))
                cols, first, reach = new, False, {c: {c} for c in range(sp['nch'])}
                if sum(cols.values()) > 5000:
                    return 10000
            else:
                pairs = [(o['a'], o['b'])] if k == 'wave_plate_cc' else [(x, y) for _, x, y in ref.couplers(o, sp)] \
                    if k in ref.OPTICAL and k != 'phase' else []
                for x, y in pairs:
                    for c in reach:
                        if reach[c] & {x, y}:
                            reach[c] = reach[c] | {x, y}
        most = max(most, sum(cols.values()))
    return most


def histogram(branches, channels, length):
    """Per initial state: {values of the classical channels as reported: probability}."""
    out = {}
    for b in branches:
        key = tuple(abs(int(b.classical[c]) % length) for c in channels)
        d = out.setdefault(b.initial, {})
        d[key] = d.get(key, 0) + b.weight
    return out


def reported(col, channels, sp, initial=()):
    """The histogram the package reports, with outcomes as tuples."""
    h = col.plot(classical_channels=list(channels), initial_states=list(initial), histo_output_instead_of_plot=True)
    digits = len(str(sp['L'] - 1))
    out = {}
    for ini, lst in h.items():
        d = out.setdefault(ini, {})
        for e in lst:
            name = e['output_state']
            vals = [int(name[i:i + digits]) for i in range(0, len(name), digits)]
            vals = tuple(vals if sp['left'] else vals[::-1])
            if vals in d:
                raise ValueError('outcome %s listed twice' % (vals,))
            d[vals] = float(e['probability'])
    return out
