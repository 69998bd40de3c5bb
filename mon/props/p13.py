"""P13: a collection as a store, monitored against a plain model over random histories of operations."""
import random as pyrandom

import numpy as np

from mon import gen, ref

import fock_state_circuit as fsc

ID = 'P13'
CASES = {'quick': 3000, 'thorough': 80000}
RULE = 'distinct by the sequence of operations with their outcome sizes; non-trivial if at least five operations were monitored'
REQUIRED_EVENTS = ['op:add', 'op:add_random', 'op:overwrite', 'op:get', 'op:get_initial', 'op:delete', 'op:delete_initial', 'op:delete_missing',
                   'op:filter_initial', 'op:filter_identifier', 'op:filter_classical', 'op:copy', 'op:from_dict', 'op:mixture', 'op:clear',
                   'op:grouping', 'op:default', 'op:template', 'op:evaluate', 'many_states', 'identifier_with_repeated_random_numbers']
MIN_DISTINCT = 30
ASSUMPTIONS = ['identifiers are strings']


def sfp(s):
    """Everything visible of one state."""
    return (s.initial_state, round(float(s.cumulative_probability), 12),
            tuple((n, complex(ap['amplitude']), round(float(ap['probability']), 12)) for n, ap in s.optical_components.items()),
            tuple(float(v) for v in s.classical_channel_values),
            tuple((tuple(map(float, m['measurement_results'])), float(m['probability'])) for m in s.measurement_results),
            repr(sorted(s.auxiliary_information.items())))


def run_case(rng, mon, idx, tier):
    sp = gen.spec(rng, max_dim=60, lengths=(2, 3, 4, 11), channels=(2, 3), ncl=(0, 3))
    note = gen.notation(sp)
    c = gen.circuit(sp)
    col = fsc.CollectionOfStates(c, input_collection_as_a_dict={})
    model = {}                       # identifier -> fingerprint, in order
    serial = [0]
    log = []

    def fresh(initial=None):
        r = gen.rstates(rng, sp, 1, weights=True)[0]
        r.initial = initial or rng.choice(['A', 'B', 'C', '', note.name(gen.random_occ(rng, sp))])
        r.classical = [rng.choice([0, 1, 2]) for _ in range(sp['ncl'])]
        if rng.random() < 0.4:
            r.history.append((list(r.classical), 0.5))
        tmp = fsc.CollectionOfStates(c, input_collection_as_a_dict={})
        return gen.add_rstate(tmp, sp, r, 'x', {'tag': serial[0]} if rng.random() < 0.3 else None)

    def check(what):
        got = {k: sfp(s) for k, s in col.items()}
        mon.check(len(col) == len(model), lambda: '%s: %d states, expected %d' % (what, len(col), len(model)))
        mon.check(got == model, lambda: '%s: %s' % (what, [(k, got.get(k), model.get(k)) for k in set(got) | set(model) if got.get(k) != model.get(k)][:3]))
        mon.check(list(col.keys()) == list(model) == col.state_identifiers_as_list(), lambda: what + ': order of identifiers %s, expected %s' % (list(col.keys()), list(model)))
        mon.check(col.initial_states_as_list() == [f[0] for f in model.values()], what + ': list of initial states')
        mon.check([sfp(s) for s in col.values()] == list(model.values()) == [sfp(s) for s in col], what + ': iteration')
        mon.check({k: sfp(s) for k, s in col.collection_as_dict().items()} == model, what + ': collection as dictionary')
        mon.event('model_comparisons')

    n = rng.randint(4, 14)
    for _ in range(n):
        k = rng.choice(['add', 'add', 'add_random', 'add_random', 'overwrite', 'get', 'get_initial', 'delete', 'delete_initial', 'delete_missing',
                        'filter_initial', 'filter_identifier', 'filter_classical', 'copy', 'from_dict', 'mixture', 'clear', 'grouping',
                        'default', 'template', 'evaluate', 'many'])
        if k in ('clear', 'default', 'mixture') and rng.random() < 0.5:
            continue
        what = 'after %s, %s' % (log, k)
        ids = list(model)
        if k == 'add':
            s, i = fresh(), 'k%d' % serial[0]
            serial[0] += 1
            col.add_state(s, identifier=i) if rng.random() < 0.5 else col.add_state(s, i)
            model[i] = sfp(s)
        elif k == 'add_random' or k == 'many':
            reseeded = rng.getrandbits(16) if rng.random() < 0.4 else None
            for _ in range(1 if k == 'add_random' else rng.randint(5, 45)):
                s = fresh()
                if reseeded is not None:     # user code may seed the generator the identifiers come from
                    pyrandom.seed(reseeded)
                    np.random.seed(reseeded)
                    mon.event('identifier_with_repeated_random_numbers')
                col.add_state(s)
                new = [x for x in col.keys() if x not in model]
                mon.check(len(new) == 1, lambda: what + ': one new identifier expected, got %s' % new)
                mon.check(isinstance(new[0], str), what + ': identifier is not a name')
                model[new[0]] = sfp(s)
            if k == 'many':
                mon.event('many_states')
                k = 'add_random'
        elif k == 'overwrite':
            if not ids:
                continue
            s, i = fresh(), rng.choice(ids)
            col.add_state(s, identifier=i)
            model[i] = sfp(s)
        elif k == 'get':
            if not ids:
                continue
            i = rng.choice(ids)
            s = rng.choice([lambda: col.get_state(identifier=i), lambda: col[i], lambda: col.get_state(i),
                            lambda: col.get_state(identifier=i, initial_state='C'), lambda: col[ids.index(i)]])()
            mon.check(sfp(s) == model[i], lambda: what + ': state %r' % i)
            mon.check(s is col.collection_as_dict()[i], what + ': not the stored state')
            mon.check(col.get_state(identifier='absent') is None and col['absent'] is None, what + ': absent identifier found')
        elif k == 'get_initial':
            want = rng.choice(['A', 'B', 'C', 'absent'])
            s = rng.choice([lambda: col.get_state(initial_state=want), lambda: col.get_state(identifier='absent', initial_state=want)])()
            hits = [f for f in model.values() if f[0] == want]
            mon.check((s is None) == (not hits), what + ': presence of initial state %r' % want)
            if hits:
                mon.check(sfp(s) == hits[0], what + ': state with initial state %r' % want)
        elif k == 'delete':
            if not ids:
                continue
            i = rng.choice(ids)
            col.delete_state(identifier=i) if rng.random() < 0.7 else col.delete_state(identifier=i, initial_state='A')
            del model[i]
        elif k == 'delete_initial':
            want = rng.choice(['A', 'B', 'C'])
            col.delete_state(initial_state=want)
            for i in ids:
                if model[i][0] == want:
                    del model[i]
                    break
        elif k == 'delete_missing':
            rng.choice([lambda: col.delete_state(identifier='absent'), lambda: col.delete_state(initial_state='absent'), lambda: col.delete_state()])()
        elif k == 'filter_initial':
            want = rng.sample(['A', 'B', 'C', '', 'absent'], rng.randint(1, 4))
            arg = want[0] if len(want) == 1 and rng.random() < 0.5 else list(want)
            col.filter_on_initial_state(arg)
            if isinstance(arg, list):
                mon.check(arg == want, what + ': list changed')
            model = {i: f for i, f in model.items() if f[0] in want}
        elif k == 'filter_identifier':
            want = [i for i in ids if rng.random() < 0.7] + (['absent'] if rng.random() < 0.5 else [])
            rng.shuffle(want)
            if len(want) == 1 and rng.random() < 0.5:
                col.filter_on_identifier(want[0])
            else:
                col.filter_on_identifier(list(want))
            model = {i: f for i, f in model.items() if i in want}
        elif k == 'filter_classical':
            if not sp['ncl']:
                continue
            chs = rng.sample(range(sp['ncl']), rng.randint(1, sp['ncl']))
            vals = [rng.choice([0, 1, 2]) for _ in chs]
            if rng.random() < 0.5 and model:
                f = rng.choice(list(model.values()))
                vals = [int(f[3][x]) if f[3][x] == int(f[3][x]) else f[3][x] for x in chs]
            col.filter_on_classical_channel(classical_channel_numbers=list(chs), values_to_filter=list(vals))
            model = {i: f for i, f in model.items() if all(f[3][x] == v for x, v in zip(chs, vals))}
        elif k == 'copy':
            cp = col.copy()
            mon.check({x: sfp(s) for x, s in cp.items()} == model, what + ': copy differs')
            if rng.random() < 0.5:       # carry on with the copy; the original must not follow
                old, col = col, cp
                s = fresh()
                old.add_state(s)
                if len(old) > 1:
                    old.delete_state(identifier=list(old.keys())[0])
                for s in old.values():
                    s.cumulative_probability = 0.123
            else:
                cp.clear()
        elif k == 'template':
            t = col.copy(empty_template=True)
            mon.check(len(t) == 0 and t._fock_state_circuit is col._fock_state_circuit, what + ': template')
        elif k == 'from_dict':
            d = {}
            for _ in range(rng.randint(0, 5)):
                d['d%d' % serial[0]] = fresh()
                serial[0] += 1
            model = {i: sfp(s) for i, s in d.items()}
            if rng.random() < 0.5:
                col.collection_from_dict(dict(d))
            else:
                col = fsc.CollectionOfStates(c, input_collection_as_a_dict=dict(d))
        elif k == 'mixture':
            ss = [fresh() for _ in range(rng.randint(1, 30))]
            if rng.random() < 0.3:  # the same state with several weights
                ss += [rng.choice(ss) for _ in range(rng.randint(1, 3))]
            w = [rng.random() + 0.01 for _ in ss]
            w = [x / sum(w) for x in w]
            contents = [sfp(s) for s in ss]
            arg = list(zip(ss, w))
            col.set_collection_as_statistical_mixture(arg)
            got = {i: sfp(s) for i, s in col.items()}
            mon.check([sfp(s) for s in ss] == contents, what + ': the states handed over were changed')
            mon.check(len(got) == len(ss), lambda: what + ': %d states, expected %d' % (len(got), len(ss)))
            mon.check(len({f[0] for f in got.values()}) == 1, what + ': mixture with several initial states')
            ini = next(iter(got.values()))[0]
            want = sorted([(ini, round(x, 12)) + f[2:] for f, x in zip(contents, w)], key=repr)
            mon.check(sorted(got.values(), key=repr) == want, what + ': states of the mixture')
            model = dict(got)
        elif k == 'clear':
            col.clear()
            model = {}
        elif k == 'grouping':
            g = col._group_states_together_by_photon_number()
            mon.check(sorted(i for v in g.values() for i in v) == sorted(model), what + ': grouping loses or repeats states')
            for key, v in g.items():
                for i in v:
                    nums = {sum(note.occ(x[0])) for x in model[i][2]}
                    mon.check(key == ('=%d' % max(nums) if len(nums) == 1 else '<=%d' % max(nums)), what + ': photon number of %r' % i)
        elif k == 'default':
            col.initialize_to_default()
            model = {i: sfp(s) for i, s in col.items()}
            mon.check(sorted(f[0] for f in model.values()) == sorted(note.name(o) for o in note.basis()), what + ': default states')
        elif k == 'evaluate':
            # running a circuit does not touch the store, and results of an empty circuit keep identifiers
            c2, _ = gen.build(sp, [gen.op(rng, sp, ('swap', 'phase'))])
            out = c2.evaluate_circuit(col)
            mon.check(sorted(f[0] for f in model.values()) == sorted(s.initial_state for s in out), what + ': evaluation lost states')
        check(what)
        mon.event('op:' + k)
        log.append(k)
    if len(log) >= 5:
        mon.nontrivial(sp['L'], sp['nch'], sp['ncl'], log, len(model))
        mon.sample(dict(spec=sp, history=log, states=len(model)))
