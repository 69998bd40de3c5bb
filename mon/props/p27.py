"""P27: printed states and collections tell what they hold."""
import re

from mon import gen, ref, special

import fock_state_circuit as fsc

ID = 'P27'
CASES = {'quick': 5000, 'thorough': 100000}
RULE = 'distinct by circuit shape, history lengths, setting and the way the collection was made; non-trivial if a state with measurement results was printed'
REQUIRED_EVENTS = ['states_printed', 'collections_printed', 'last_result_only', 'all_results', 'several_results', 'setting_changed_later', 'copied', 'copied_empty', 'reduced', 'extended', 'length_changed',
                   'evaluated', 'components_read', 'complex_amplitudes', 'photon_resolved', 'circuits_printed', 'compounds_printed', 'one_line_components', 'own_classical_values', 'large_values', 'empty_collections', 'reversed_notation']
MIN_DISTINCT = 60
ASSUMPTIONS = ['two decimals', 'wording and layout of lines are free as long as names and numbers can be read']
HALF = 0.00501
NUM = r'-?\d+\.\d+(?:e[-+]\d+)?|nan|inf'
AMP = re.compile(r'\(\s*(' + NUM + r')\s*([-+])\s*(' + NUM + r')\s*[ij]\s*\)')


def numbers(text):
    return [float(x) for x in re.findall(NUM, text)]


def near(x, y):
    return abs(x - y) <= HALF + 1e-6 * abs(y)


def component(mon, line, what):
    """Name, amplitude and what follows the amplitude."""
    m = AMP.search(line)
    mon.check(m is not None, lambda: '%s: no amplitude in %r' % (what, line))
    q = re.search(r"'([^']*)'", line)
    mon.check(q is not None, lambda: '%s: no name in %r' % (what, line))
    return q.group(1), complex(float(m.group(1)), float(m.group(3)) * (1 if m.group(2) == '+' else -1)), line[m.end():]


def read_state(mon, text, s, last, what):
    """Compare the printed text of a state with the state."""
    name = repr(s.initial_state)
    mon.check(name in text, lambda: '%s: name %s not printed in %r' % (what, name, text))
    lines = text.split(name, 1)[1].split('\n')[1:]
    low = [x.lower() for x in lines]

    def find(word):
        return [i for i, x in enumerate(low) if word in x]
    i = find('cumulative')
    mon.check(i and near(numbers(lines[i[0]])[0], s.cumulative_probability), lambda: '%s: probability in %r' % (what, text))
    values = list(s.classical_channel_values)
    if values:
        i = find('classical')
        mon.check(bool(i), lambda: '%s: no classical values in %r' % (what, text))
        got = numbers(lines[i[0]])
        mon.check(len(got) == len(values) and all(map(near, got, values)), lambda: '%s: classical values %s printed as %s' % (what, values, got))
        mon.event('own_classical_values')
    start = find('component')
    mon.check(bool(start), lambda: '%s: no components in %r' % (what, text))
    printed = [numbers(x) for x in lines[:start[0]] if 'robability' in x and 'umulative' not in x]
    want = [list(m['measurement_results']) + [m['probability']] for m in s.measurement_results]
    if last:
        want = want[-1:]
    want = want[::-1]
    mon.check(len(printed) == len(want), lambda: '%s: %d measurement results printed instead of %d in %r' % (what, len(printed), len(want), text))
    for a, b in zip(printed, want):
        mon.check(len(a) == len(b) and all(map(near, a, b)), lambda: '%s: measurement result %s printed as %s' % (what, b, a))
    got = {}
    for x in lines[start[0]:]:
        if AMP.search(x):
            k, amp, rest = component(mon, x, what)
            mon.check(k not in got, lambda: '%s: component %s printed twice' % (what, k))
            got[k] = (amp, numbers(rest))
    oc = s.optical_components
    mon.check(set(got) == set(oc), lambda: '%s: components %s printed as %s' % (what, sorted(oc), sorted(got)))
    for k, v in oc.items():
        a, p = got[k]
        mon.check(near(a.real, v['amplitude'].real) and near(a.imag, v['amplitude'].imag), lambda: '%s: amplitude %s of %s printed as %s' % (what, v['amplitude'], k, a))
        mon.check(len(p) == 1 and near(p[0], v['probability']), lambda: '%s: probability %s of %s printed as %s' % (what, v['probability'], k, p))
        mon.event('components_read')
        mon.event('complex_amplitudes', bool(abs(v['amplitude'].imag) > 0.02))
    mon.event('states_printed')
    if want:
        mon.event('last_result_only' if last else 'all_results')
        mon.event('several_results', len(s.measurement_results) > 1)


def read_collection(mon, col, last, what):
    text = str(col)
    mon.check(str(len(col)) in text.split('Identifier')[0], lambda: '%s: number of states %d in %r' % (what, len(col), text[:80]))
    rest = text
    places = []
    for ident, s in col.items():
        head = rest.find(repr(ident) + '\n')
        mon.check(head >= 0, lambda: '%s: identifier %r not printed' % (what, ident))
        rest = rest[head + len(repr(ident)):]
        places.append(len(text) - len(rest))
    for n, (ident, s) in enumerate(col.items()):
        end = places[n + 1] if n + 1 < len(places) else len(text) + 1
        part = text[places[n]:end]
        if n + 1 < len(places):
            part = part[:part.rindex('Identifier')] if 'Identifier' in part else part
        read_state(mon, part, s, last, what + ': state %r' % ident)
    mon.event('collections_printed')
    mon.event('empty_collections', not len(col))

LARGE = [300.5, -70000, 1234567, 98765.4321, 1234.5]


def run_case(rng, mon, idx, tier):
    sp = gen.spec(rng, max_dim=120, lengths=(2, 3, 4, 11), channels=(2, 3, 4), ncl=(0, 3), thr=rng.choice([1e-12, 1e-4]))
    mon.event('reversed_notation', not sp['left'])
    states = gen.rstates(rng, sp, weights=True) if rng.random() < 0.95 else []
    for s in states:
        if sp['ncl'] and rng.random() < 0.2:
            s.classical[rng.randrange(sp['ncl'])] = rng.choice(LARGE)
            mon.event('large_values')
        for _ in range(rng.choice([0, 0, 1, 2, 3])):
            s.history.append(([rng.choice([0, 1, 2, round(rng.uniform(-9, 9), 3), rng.choice(LARGE)]) for _ in range(sp['ncl'])], round(rng.random(), 4)))
    name = rng.choice([None, 'first', 'x' * rng.randint(1, 9)])
    c = gen.circuit(sp, name)
    col = gen.collection(c, sp, states)
    log = []
    setting = True
    what = 'collection of %s in %s' % ([(s.initial, s.weight, gen.show(s.amps), s.classical, s.history) for s in states], sp)

    def choose():
        nonlocal setting
        setting = rng.random() < 0.5
        col.print_only_last_measurement = setting
        log.append('setting %s' % setting)
    if rng.random() < 0.4:
        choose()
    for _ in range(rng.choice([0, 1, 1, 2, 3])):
        k = rng.choice(['copy', 'reduce', 'extend', 'length', 'evaluate', 'delay', 'setting', 'empty'])
        if k == 'setting':
            choose()
            mon.event('setting_changed_later')
        elif k == 'copy':
            other = col
            col = col.copy()
            mon.check(col.print_only_last_measurement == setting, lambda: '%s %s: the copy does not keep the setting' % (what, log))
            if rng.random() < 0.5:
                other.print_only_last_measurement = not setting
            mon.event('copied')
        elif k == 'empty':
            e = col.copy(empty_template=True)
            mon.check(e.print_only_last_measurement == setting and len(e) == 0, lambda: '%s %s: the empty copy does not keep the setting' % (what, log))
            mon.event('copied_empty')
        elif k == 'reduce' and sp['nch'] > 2 and 'reduced' not in log:
            sp = dict(sp, nch=2)
            col.reduce(optical_channels_to_keep=rng.sample(range(3), 2))
            log.append('reduced')
            mon.event('reduced')
        elif k == 'extend' and sp['L'] ** (sp['nch'] + 1) < 400 and not any(s.auxiliary_information for s in col):
            col.extend(extra_optical_channels=1, extra_classical_channels=1)
            sp = dict(sp, nch=sp['nch'] + 1, ncl=sp['ncl'] + 1)
            mon.event('extended')
        elif k == 'length' and sp['nch'] <= 3 and sp['L'] < 6 and not any(s.auxiliary_information for s in col):
            sp = dict(sp, L=sp['L'] + 1)
            col.adjust_length_of_fock_state(new_length_of_fock_state=sp['L'])
            mon.event('length_changed')
        elif k in ('evaluate', 'delay'):
            d = gen.circuit(sp)
            small = sp['L'] ** sp['nch'] < 30
            if k == 'delay' and small and all(len(s.amps) == 1 and sum(next(iter(s.amps))) <= 1 for s in states):
                d.time_delay_full(affected_channels=[0], delay=1.0, pulse_width=1.0)
            else:
                gen.add_op(d, gen.op(rng, sp, ('half_wave_plate', 'mix_50_50', 'wave_plate')))
                if sp['ncl'] and not any(s.auxiliary_information for s in col):
                    gen.add_op(d, gen.op(rng, sp, ('measure',)))
            if sp['L'] ** sp['nch'] < 700 and not any(s.auxiliary_information for s in col):
                col = d.evaluate_circuit(col)
                setting = col.print_only_last_measurement
                mon.event('evaluated')
        log.append(k)
    text = '%s after %s' % (what, log)
    mon.check(col.print_only_last_measurement == setting, lambda: text + ': setting lost')
    read_collection(mon, col, setting, text)
    mon.event('photon_resolved', any(s.auxiliary_information for s in col))
    if rng.random() < 0.5:
        choose()
        mon.event('setting_changed_later')
        read_collection(mon, col, setting, '%s after %s' % (what, log))
    for s in col:
        line = s.print_optical_components()
        got = {}
        ends = [m.end() for m in AMP.finditer(line)]
        for a, b in zip([0] + ends, ends):
            k, amp, _ = component(mon, line[a:b], text)
            got[k] = amp
        mon.check(set(got) == set(s.optical_components), lambda: '%s: one-line components %s' % (text, line))
        mon.check(all(near(v.real, s.optical_components[k]['amplitude'].real) and near(v.imag, s.optical_components[k]['amplitude'].imag) for k, v in got.items()), lambda: '%s: one-line components %s' % (text, line))
        mon.event('one_line_components')
        # alone it prints its results too, in one of the two ways
        own = str(s)
        n = sum('robability' in x and 'umulative' not in x for x in own.split('omponent')[0].split('\n'))
        mon.check(n == len(s.measurement_results) or n == min(1, len(s.measurement_results)), lambda: '%s: printed alone: %r' % (text, own))
        read_state(mon, own, s, n < len(s.measurement_results) or n == 1, text + ': alone')
    t = str(c)
    got = [int(x) for x in re.findall(r'\d+', t.replace(name or '\0', ''))]
    base = c
    for v in (base._no_of_optical_channels, base._no_of_classical_channels, base._length_of_fock_state):
        mon.check(v in got, lambda: 'printed circuit %r does not tell %s' % (t, v))
    mon.check(not name or name in t, lambda: 'printed circuit %r does not tell its name' % t)
    mon.event('circuits_printed')
    if rng.random() < 0.1:
        other = gen.circuit(sp, 'other')
        p = str(fsc.CompoundFockStateCircuit([gen.circuit(sp, 'one'), other], 'together'))
        mon.check('together' in p and 'one' in p and 'other' in p, lambda: 'printed compound circuit %r' % p)
        mon.event('compounds_printed')
    if any(s.measurement_results for s in col):
        mon.nontrivial(sp['L'], sp['nch'], sp['ncl'], sp['left'], tuple(log), tuple(len(s.measurement_results) for s in col))
        mon.sample(dict(text=str(col)[:400]))
