"""P09: names, photon numbers and positions."""
import numpy as np

from mon import gen, ref

import fock_state_circuit as fsc

ID = 'P09'
CASES = {'quick': 4000, 'thorough': 40000}
RULE = 'distinct by Fock length, channels, notation, object queried and the sequence of look-ups; non-trivial if at least one look-up preceded the enumeration'
REQUIRED_EVENTS = ['basis_enumerations', 'lookups', 'default_collections', 'multi_digit_names', 'matrix_orders', 'vectors',
                   'lookups_after_enumeration', 'rejected_lookups']
MIN_DISTINCT = 30
ASSUMPTIONS = ['basis sizes up to 1100 (and single look-ups in larger ones)']


def lookups(rng, mon, names, values, sp, n, wild=True):
    """Random look-ups through the two dictionaries of a circuit, collection or state."""
    note = gen.notation(sp)
    size = sp['L'] ** sp['nch']
    log = []
    for _ in range(n):
        occ = gen.random_occ(rng, sp)
        name = note.name(occ)
        k = rng.randrange(10 if wild else 9)
        log.append(k)
        if k == 0:
            mon.check(list(names[name]) == list(occ), lambda: 'name %r gives %r, expected %r' % (name, names[name], occ))
        elif k == 1:
            mon.check(values[occ] == name, lambda: 'values %r give %r, expected %r' % (occ, values[occ], name))
        elif k == 2:
            mon.check(values[list(occ)] == name, lambda: 'values %r (list) give %r' % (occ, values[list(occ)]))
        elif k == 3:
            mon.check(names.index_of(name) == note.index(occ), lambda: 'position of %r is %r' % (name, names.index_of(name)))
        elif k == 4:
            mon.check(values.index_of(occ) == note.index(occ), lambda: 'position of %r is %r' % (occ, values.index_of(occ)))
        elif k == 5:
            mon.check(names.at_index(note.index(occ)) == name, lambda: 'name at %d is %r' % (note.index(occ), names.at_index(note.index(occ))))
        elif k == 6:
            mon.check(tuple(values.at_index(note.index(occ))) == occ, lambda: 'values at %d' % note.index(occ))
        elif k == 7:
            mon.check(name in names and occ in values and list(occ) in values, lambda: '%r not recognised' % name)
            got = names[name]
            got[rng.randrange(len(got))] = 99            # the caller's list is the caller's
        elif k == 8:
            mon.check(size > 2 ** 62 or (len(names) == size and len(values) == size), 'size of the basis')
        else:
            bad = rng.choice([name + name[-1], name[:-1], 'x' + name[1:], '', ' ' + name[1:], '+' + name[1:], '-' + name[1:],
                              name[:-1] + ' ', name[:-1] + chr(0x0660 + int(name[-1])), ''.join(chr(0xff10 + int(d)) for d in name)])
            over = list(occ)
            over[rng.randrange(len(over))] = sp['L']
            try:
                accepted = bad in names
            except Exception:
                accepted = False
            mon.check(not accepted, lambda: 'name %r accepted with %s' % (bad, sp))
            mon.check(over not in values and tuple(over) not in values and occ + (0,) not in values,
                      lambda: 'values %r accepted' % (over,))
            if len(str(sp['L'])) == len(str(sp['L'] - 1)):
                wrong = ref.Notation(10 ** note.digits, sp['nch'], sp['left']).name(over)
                mon.check(wrong not in names, lambda: 'name %r accepted with length %d' % (wrong, sp['L']))
            mon.event('rejected_lookups')
    mon.event('lookups', n)
    return log


def enumeration(mon, names, values, sp, how, wild):
    """The whole basis, listed in standard order."""
    note = gen.notation(sp)
    want = note.basis()
    wnames = [note.name(o) for o in want]
    if how == 0:
        got = [(n, tuple(v)) for n, v in names.items()]
        mon.check(got == list(zip(wnames, want)), lambda: 'items of the basis: %s..., expected %s...' % (got[:6], list(zip(wnames, want))[:6]))
    elif how == 1:
        got = list(names)
        mon.check(got == wnames, lambda: 'names of the basis: %s..., expected %s...' % (got[:8], wnames[:8]))
    elif how == 2:
        got = [tuple(v) for v in names.values()]
        mon.check(got == want, lambda: 'photon numbers of the basis: %s...' % got[:8])
    elif how == 3:
        got = [(tuple(v), n) for v, n in values.items()]
        mon.check(got == list(zip(want, wnames)), lambda: 'items by photon numbers: %s...' % got[:6])
    elif how == 4:
        got = [tuple(v) for v in values.keys()]
        mon.check(got == want, lambda: 'photon numbers: %s...' % got[:8])
    else:
        got = list(values.values())
        mon.check(got == wnames, lambda: 'names by photon numbers: %s...' % got[:8])
    mon.check(len(set(wnames)) == len(wnames) and all(len(n) == note.digits * sp['nch'] for n in wnames), 'oracle')
    mon.event('basis_enumerations')
    mon.event('basis_elements_checked', len(want))


def run_case(rng, mon, idx, tier):
    if idx % 40 == 7:
        sp = gen.huge_spec(rng, (0, 2))
        c = gen.circuit(sp)
        holder = rng.choice([c, fsc.CollectionOfStates(c, input_collection_as_a_dict={}), fsc.State(fsc.CollectionOfStates(c, input_collection_as_a_dict={}))])
        log = lookups(rng, mon, holder._dict_of_valid_component_names, holder._dict_of_optical_values, sp, 60)
        mon.event('unlistable_bases')
        mon.nontrivial('huge', sp['L'], sp['nch'], sp['left'], log)
        return
    big = idx % 25 == 0
    sp = gen.spec(rng, max_dim=1100 if big else 260, lengths=(1, 2, 3, 4, 5, 7, 10, 11, 12, 33), channels=(2, 3, 4, 5, 6, 8), ncl=(0, 2))
    if sp['L'] > 10:
        mon.event('multi_digit_names')
    note = gen.notation(sp)
    size = sp['L'] ** sp['nch']
    wild = rng.random() < 0.5
    log = []
    c = gen.circuit(sp)
    source = rng.randrange(3)
    if source == 0:
        names, values = c._dict_of_valid_component_names, c._dict_of_optical_values
        if rng.random() < 0.5:
            names = c.basis()
    elif source == 1:
        col = fsc.CollectionOfStates(c, input_collection_as_a_dict={})
        names, values = col._dict_of_valid_component_names, col._dict_of_optical_values
    else:
        s = fsc.State(fsc.CollectionOfStates(c, input_collection_as_a_dict={}))
        names, values = s._dict_of_valid_component_names, s._dict_of_optical_values
    n0 = rng.choice([0, 1, 3, 8, min(3 * size, 60)])
    log.append(lookups(rng, mon, names, values, sp, n0, wild))
    # work done by the circuit itself looks names up as well
    if rng.random() < 0.3 and sp['L'] > 1:
        st = gen.rstates(rng, sp, 1)
        ops = [gen.op(rng, sp, ref.OPTICAL) for _ in range(rng.randint(0, 2))]
        for o in ops:
            gen.add_op(c, o)
        c.evaluate_circuit(gen.collection(c, sp, st))
        log.append([o['kind'] for o in ops])
    for _ in range(rng.randint(1, 3)):
        how = rng.randrange(6)
        enumeration(mon, names, values, sp, how, wild)
        n1 = rng.choice([0, 2, 6])
        log.append((how, lookups(rng, mon, names, values, sp, n1, wild)))
        mon.event('lookups_after_enumeration', n1)
    wnames = [note.name(o) for o in note.basis()]
    # order used by vectors and matrices
    col = fsc.CollectionOfStates(c, input_collection_as_a_dict={})
    if sp['L'] > 1:
        r = gen.rstates(rng, sp, 1)[0]
        s = gen.add_rstate(col, sp, r)
        vec, basis = s.translate_state_components_to_vector()
        mon.check(list(basis) == wnames, lambda: 'basis of the vector starts %s' % (list(basis)[:6],))
        for occ, a in r.amps.items():
            mon.close(complex(vec[note.index(occ)]), a, 1e-9, lambda: 'vector element of %r' % (occ,))
        mon.close(float(np.sum(np.abs(vec) ** 2)), 1, 1e-6, 'norm of the vector')
        mon.event('vectors')
    mon.check(col.generate_allowed_components_names_as_list_of_strings() == wnames, 'list of allowed names')
    if size <= 260 and sp['L'] > 1:
        a, b = rng.sample(range(sp['nch']), 2)
        cc = gen.circuit(dict(sp, full=True))
        cc.swap(a, b)
        m = np.asarray(cc.get_fock_state_matrix([0]))
        for _ in range(3):
            occ = gen.random_occ(rng, sp, max_photons=sp['L'] - 1)
            new = list(occ)
            new[a], new[b] = new[b], new[a]
            mon.check(m.shape == (size, size), 'shape of the matrix')
            mon.close(abs(m[note.index(tuple(new)), note.index(occ)]), 1, 1e-5, lambda: 'matrix element of the swap of %d and %d for %r with %s' % (a, b, occ, sp))
        mon.event('matrix_orders')
    # default collection
    if size <= 260:
        d = fsc.CollectionOfStates(c)
        if rng.random() < 0.4:
            d.clear()
            d.initialize_to_default()
        got = []
        for s in d:
            mon.check(list(s.optical_components) == [s.initial_state], lambda: 'default state %r holds %s' % (s.initial_state, list(s.optical_components)))
            ap = s.optical_components[s.initial_state]
            mon.close(complex(ap['amplitude']), 1, 0, 'amplitude of a default state')
            mon.check(s.cumulative_probability == 1 and list(s.classical_channel_values) == [0] * sp['ncl'] and s.measurement_results == [], 'default state not initialised')
            got.append(s.initial_state)
        mon.check(sorted(got) == sorted(wnames), lambda: 'default collection of %s: %d states, expected %d; %s...' % (sp, len(got), size, got[:5]))
        mon.check(len(d) == size and len(set(d.keys())) == size, 'number of default states')
        mon.check(len({id(s) for s in d}) == size, 'default states share an object')
        mon.event('default_collections')
    if n0 or log:
        mon.nontrivial(sp['L'], sp['nch'], sp['left'], source, log)
        mon.sample(dict(spec=sp, basis_size=size, lookups=log))
