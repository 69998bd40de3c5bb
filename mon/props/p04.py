"""P04: evaluation is free of side effects on its input, results and copies share nothing."""
import numpy as np

from mon import gen, ref, special

import fock_state_circuit as fsc

ID = 'P04'
CASES = {'quick': 2500, 'thorough': 60000}
RULE = ('distinct by circuit shape, node kinds and input sizes; non-trivial if at least one evaluation and three later modifications '
        'were observed')
REQUIRED_EVENTS = ['evaluations_watched', 'mutations_watched', 'copies_watched', 'spectral_cases', 'pr_cases', 'hamiltonian_cases',
                   'bridge_cases', 'basic_cases', 'reshapes_watched', 'other_threshold']
MIN_DISTINCT = 30
ASSUMPTIONS = ['only public attributes of states, collections and nodes are compared']
KINDS = ref.OPTICAL + ('phase_cc', 'wave_plate_cc', 'measure', 'set_classical', 'classical_function', 'shift', 'shift_direct',
                       'c_shift', 'c_shift_direct', 'custom_fock', 'assign')


def freeze(x, seen=()):
    """Deep plain-data picture of a public value."""
    if isinstance(x, (str, bytes, int, type(None), bool)):
        return x
    if isinstance(x, (float, complex, np.generic)):
        return repr(complex(x))
    if isinstance(x, np.ndarray):
        return ('array', x.shape, x.tobytes())
    if id(x) in seen:
        return 'loop'
    seen = seen + (id(x),)
    if isinstance(x, dict):
        return ('dict',) + tuple((freeze(k, seen), freeze(v, seen)) for k, v in x.items())
    if isinstance(x, (list, tuple)):
        return ('list',) + tuple(freeze(v, seen) for v in x)
    if isinstance(x, (set, frozenset)):
        return ('set',) + tuple(sorted(repr(freeze(v, seen)) for v in x))
    if isinstance(x, (fsc.FockStateCircuit, fsc.CollectionOfStates, fsc.State)):
        return type(x).__name__
    if type(x).__module__.startswith('fock_state_circuit') and hasattr(x, '__dict__'):
        return (type(x).__name__,) + tuple((k, freeze(v, seen)) for k, v in sorted(vars(x).items()))
    if callable(x):
        return 'callable'
    return type(x).__name__


def freeze_state(s):
    return (s.initial_state, freeze(s.cumulative_probability), freeze(s.optical_components), freeze(s.classical_channel_values),
            freeze(s.measurement_results), freeze(s.auxiliary_information))


def freeze_circuit(c):
    return [freeze(dict(n)) for n in c.node_list], [dict(n) for n in c.node_list], str(c.circuit_name)


class Watch:
    """Every live object with its last known picture."""

    def __init__(self, mon):
        self.mon = mon
        self.cols = {}
        self.circuits = {}

    def add(self, name, col):
        self.mon.check(all(col is not c for c, _ in self.cols.values()), '%s is the very object that existed before' % name)
        self.cols[name] = (col, self.picture(col))

    def add_circuit(self, name, c):
        self.circuits[name] = (c, [{k: freeze(v) for k, v in n.items()} for n in c.node_list])

    @staticmethod
    def picture(col):
        return {i: freeze_state(s) for i, s in col.items()}

    def verify(self, after, allowed=None, only_state=None):
        for name, (col, pic) in self.cols.items():
            now = self.picture(col)
            if name == allowed:
                if only_state is not None:
                    for i in pic:
                        self.mon.check(i == only_state or now.get(i) == pic[i],
                                       lambda: '%s changed state %r of %s too' % (after, i, name))
                self.cols[name] = (col, now)
                continue
            self.mon.check(list(now) == list(pic), lambda: '%s changed the states held by %s: %s -> %s' % (
                after, name, list(pic)[:6], list(now)[:6]))
            for i in pic:
                self.mon.check(now[i] == pic[i], lambda: '%s changed state %r of %s from\n%s to\n%s' % (after, i, name, pic[i], now[i]))
        for name, (c, nodes) in self.circuits.items():
            self.mon.check(len(nodes) == len(c.node_list), lambda: '%s changed the number of nodes of %s' % (after, name))
            for old, n in zip(nodes, c.node_list):
                for k, v in old.items():
                    self.mon.check(k in n and freeze(n[k]) == v, lambda: '%s changed %r of a node of %s' % (after, k, name))


def mutate_nested(rng, x, depth=0):
    """Change something inside a nested structure in place."""
    opts = []
    if isinstance(x, dict) and x:
        opts = [v for v in x.values() if isinstance(v, (dict, list)) and len(v)]
        if opts and rng.random() < 0.8:
            return mutate_nested(rng, rng.choice(opts), depth + 1)
        k = rng.choice(list(x))
        x[k] = 'changed'
        return True
    if isinstance(x, list) and x:
        opts = [v for v in x if isinstance(v, (dict, list)) and len(v)]
        if opts and rng.random() < 0.8:
            return mutate_nested(rng, rng.choice(opts), depth + 1)
        x[rng.randrange(len(x))] = 'changed'
        return True
    return False


def mutate_state(rng, s):
    """One legal modification through public attributes; returns what was done."""
    while True:
        k = rng.randrange(9)
        if k == 0:
            n = rng.choice(list(s.optical_components))
            s.optical_components[n]['amplitude'] = 0.123
            return 'writing an amplitude in place'
        if k == 1:
            n = rng.choice(list(s.optical_components))
            del s.optical_components[n]
            s.optical_components['new'] = {'amplitude': 1.0, 'probability': 1.0}
            return 'replacing a component'
        if k == 2 and s.classical_channel_values:
            s.classical_channel_values[rng.randrange(len(s.classical_channel_values))] = 77
            return 'writing a classical value in place'
        if k == 3 and s.measurement_results:
            s.measurement_results[rng.randrange(len(s.measurement_results))]['probability'] = 0.321
            return 'writing a recorded probability'
        if k == 4 and s.measurement_results:
            m = rng.choice(s.measurement_results)['measurement_results']
            if m:
                m[rng.randrange(len(m))] = 55
                return 'writing a recorded value'
        if k == 5:
            s.measurement_results.append({'measurement_results': [1], 'probability': 0.5})
            return 'appending a history entry'
        if k == 6:
            s.cumulative_probability = 0.017
            return 'writing the weight'
        if k == 7:
            s.initial_state = 'renamed'
            return 'renaming the initial state'
        if k == 8 and s.auxiliary_information and mutate_nested(rng, s.auxiliary_information):
            return 'writing auxiliary information'


def program(rng, idx):
    kind = ('basic', 'basic', 'spectral', 'pr', 'hamiltonian', 'bridge', 'basic')[idx % 7]
    if kind == 'spectral':
        sp = gen.spec(rng, max_dim=30, lengths=(2, 3), channels=(2, 3), ncl=(1, 4))
        fam = rng.choice([special.DELAYS[:2], special.DELAYS[2:]])
        ops = special.linear(rng, sp, rng.randint(0, 1))
        ops.append(rng.choice([special.delay_op(rng, sp, fam), special.delay_op(rng, sp, fam), special.width_op(rng, sp)]))
        ops += special.linear(rng, sp, rng.randint(0, 2))
        if fam == special.DELAYS[:2] and rng.random() < 0.4:
            ops.append(special.delay_op(rng, sp, fam))
        if rng.random() < 0.7:
            ops.append(gen.op(rng, sp, ('measure',)))
        if rng.random() < 0.5:
            ops.append(gen.op(rng, sp, ('set_classical', 'measure', 'half_wave_plate', 'mix_50_50')))
        states = special.low_states(rng, sp, sp['L'] - 1)
    elif kind == 'pr':
        sp = dict(gen.spec(rng, lengths=(2,), channels=(4,), ncl=(4, 5)), L=2)
        ops = [special.pair_op(rng, sp)]
        h = ops[0]['pairs'][0][0]
        ops += [dict(kind='half_wave_plate', a=h[2 * i], b=h[2 * i + 1], theta=gen.angle(rng)) for i in range(2)]
        ops.append(dict(kind='measure', optical=[0, 1, 2, 3], classical=rng.sample(range(sp['ncl']), 4)))
        if rng.random() < 0.5:
            ops.append(gen.op(rng, sp, ('set_classical', 'classical_function')))
        states = [ref.RState({tuple([0] * 4): 1 + 0j}, [0] * sp['ncl'], 1.0, [], 'in%d' % i) for i in range(rng.randint(1, 2))]
    elif kind == 'hamiltonian':
        sp = gen.spec(rng, max_dim=30, lengths=(2, 3), channels=(2, 3), ncl=(1, 3))
        ops = []
        for _ in range(rng.randint(1, 2)):
            a, b = rng.sample(range(sp['nch']), 2)
            ops.append(rng.choice([
                dict(kind='ham_plate', a=a, b=b, theta=gen.angle(rng), phi=gen.angle(rng)),
                dict(kind='ham_plate_cc', a=a, b=b, c_theta=rng.randrange(sp['ncl']), c_phi=rng.randrange(sp['ncl']))]))
        if rng.random() < 0.5:
            ops.append(gen.op(rng, sp, ('measure', 'set_classical')))
        states = special.low_states(rng, sp, sp['L'] - 1)
    else:
        sp = gen.spec(rng, max_dim=64, ncl=(0, 3))
        kinds = [k for k in KINDS if sp['ncl'] or k != 'assign']
        ops = []
        for _ in range(rng.randint(1, 4)):
            k = rng.choice(kinds)
            if k == 'assign':
                ops.append(dict(kind='assign', values=[rng.randint(0, 9) for _ in range(sp['ncl'])]))
            else:
                ops.append(gen.op(rng, sp, [q for q in kinds if q != 'assign'] if rng.random() < 0.5 or (
                    k in ('pbs', 'npbs', 'npbs_50_50') and sp['nch'] < 4) or (sp['ncl'] == 0 and k in (
                        'phase_cc', 'wave_plate_cc', 'measure', 'set_classical', 'classical_function')) else (k,)))
        states = gen.rstates(rng, sp, weights=True)
    return kind, sp, ops, states


def build(sp, ops):
    c = gen.circuit(sp)
    groups = []
    for o in ops:
        if o['kind'] == 'assign':
            n = len(c.node_list)
            # a function that hands back the new values themselves, as in the documentation of the node
            c.classical_channel_function(lambda cur, new, ch: new, affected_channels=list(range(sp['ncl'])),
                                         new_input_values=list(o['values']))
            groups.append([n])
        else:
            groups.append(special.add_op(c, o))
    return c, groups


def run_case(rng, mon, idx, tier):
    kind, sp, ops, states = program(rng, idx)
    mon.event(kind + '_cases')
    c, groups = build(sp, ops)
    nodes = [n for g in groups for n in g]
    watch = Watch(mon)
    if kind == 'bridge':
        sp2 = gen.spec(rng, max_dim=81, lengths=(2, 3, 4), channels=(2, 3), ncl=(0, 3))
        ops2 = [gen.op(rng, sp2, ref.OPTICAL) for _ in range(rng.randint(0, 2))]
        c2, _ = gen.build(sp2, ops2)
        c.bridge(c2)
        nodes.append(len(c.node_list) - 1)
        watch.add_circuit('next circuit', c2)
    watch.add_circuit('circuit', c)
    col = gen.collection(c, sp, states)
    # give the input a history and auxiliary information of its own
    for s in col:
        if rng.random() < 0.4:
            s.measurement_results = [{'measurement_results': list(s.classical_channel_values), 'probability': 0.5}]
        if kind == 'basic' and rng.random() < 0.3:
            s.auxiliary_information = {'note': {'list': [1, 2, [3]], 'text': 'x'}}
    watch.add('the input', col)

    if kind == 'basic' and rng.random() < 0.3:
        # another circuit with the same nodes, but with a much coarser threshold, leaves no trace in its input
        twin = build(dict(sp, thr=0.3), ops)[0]
        twin.evaluate_circuit(col)
        watch.verify('evaluating a circuit with another threshold')
        probe = fsc.State(col.copy())
        size = sp['L'] ** sp['nch']
        probe.set_state_components_from_vector([np.sqrt(0.9), np.sqrt(0.1)] + [0] * (size - 2))
        mon.check(sum(1 for v in probe.optical_components.values() if abs(v['amplitude']) > 1e-3) == 2,
                  'evaluating a circuit with another threshold changed the threshold of copies of its input')
        mon.event('other_threshold')

    # piece by piece and as a whole, every intermediate collection stays under observation
    cut = rng.randint(0, len(nodes))
    mid = c.evaluate_circuit(col, nodes[:cut]) if rng.random() < 0.8 else None       # a piece can be empty
    if mid is not None and cut in (0, len(nodes)):
        mon.event('empty_pieces')
    if rng.random() < 0.15:
        watch.add('the result of an empty circuit', gen.circuit(sp).evaluate_circuit(col))
        watch.verify('evaluating an empty circuit')
        mon.event('empty_circuits')
    if mid is not None:
        watch.verify('evaluating nodes %s (%s)' % (nodes[:cut], [o['kind'] for o in ops]))
        watch.add('the intermediate result', mid)
        last = c.evaluate_circuit(mid, nodes[cut:])
        watch.verify('evaluating nodes %s (%s)' % (nodes[cut:], [o['kind'] for o in ops]))
        watch.add('the result of the second piece', last)
        mon.event('evaluations_watched', 2)
    res = c.evaluate_circuit(col)
    watch.verify('evaluating %s' % [o['kind'] for o in ops])
    watch.add('the result', res)
    first = gen.fingerprint(res)
    mon.event('evaluations_watched')
    cp = rng.choice([col, res]).copy()
    watch.verify('copying')
    watch.add('a copy', cp)
    n = 0
    if len(res):
        single = res[0].copy()
        box = res.copy(empty_template=True)
        box.add_state(single, identifier='single')
        watch.add('a copied state', box)
        mon.event('copies_watched', 2)
    for _ in range(5):
        name = rng.choice([k for k, (q, _) in watch.cols.items() if len(q)] or ['the input'])
        target = watch.cols[name][0]
        if not len(target):
            break
        ident = rng.choice(list(target.keys()))
        what = mutate_state(rng, target[ident])
        watch.verify('%s of state %r of %s (%s)' % (what, ident, name, [o['kind'] for o in ops]), allowed=name, only_state=ident)
        mon.event('mutations_watched')
        n += 1
    # operations on whole collections
    if kind in ('basic', 'bridge'):
        fresh = gen.collection(c, sp, states)
        if rng.random() < 0.5:
            for s in fresh:
                s.measurement_results = [{'measurement_results': list(s.classical_channel_values), 'probability': 0.5}]
        watch.add('a fresh collection', fresh)
        work = fresh.copy()
        k = rng.randrange(7)
        if k == 0 and sp["nch"] > 2:
            work.reduce(optical_channels_to_keep=sorted(rng.sample(range(sp['nch']), sp['nch'] - 1)))
        elif k == 1:
            work.extend(extra_optical_channels=1 if sp['L'] ** (sp['nch'] + 1) <= 400 else 0, extra_classical_channels=1)
        elif k == 2:
            work.adjust_length_of_fock_state(sp['L'] + 1)
        elif k == 3:
            work.clean_up()
        elif k == 4:
            work.filter_on_initial_state([rng.choice([s.initial_state for s in work.values()])])
        elif k == 5:
            work.set_collection_as_statistical_mixture([(s, 0.5) for s in list(work.values())])
        else:
            work.delete_state(initial_state=rng.choice([s.initial_state for s in work.values()]))
        watch.verify('reshaping a copy (%d)' % k)
        watch.add('the reshaped copy', work)
        for _ in range(2):
            if len(work):
                ident = rng.choice(list(work.keys()))
                what = mutate_state(rng, work[ident])
                watch.verify('%s of state %r of the reshaped copy (%d)' % (what, ident, k), allowed='the reshaped copy', only_state=ident)
                n += 1
        mon.event('reshapes_watched')
    # the circuit still does what it did, whatever happened to the results
    if kind in ('basic', 'bridge'):
        again = c.evaluate_circuit(gen.collection(c, sp, states))
        plain = build(sp, ops)[0]
        if kind == 'bridge':
            plain.bridge(c2)
        other = plain.evaluate_circuit(gen.collection(plain, sp, states))
        osp = sp2 if kind == 'bridge' else sp
        gen.compare(mon, gen.observe(again, osp), gen.observe(other, osp), 1e-6, 'evaluating again after modifying results')
        mon.event('reevaluations')
    if n >= 3:
        mon.nontrivial(kind, gen.rich(sp, ops, states), cut)
        mon.sample(dict(kind=kind, spec=sp, ops=[o['kind'] for o in ops], objects=len(watch.cols)))
