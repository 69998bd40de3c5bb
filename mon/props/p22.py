"""P22: algebra of states, monitored law by law against vectors of amplitudes."""
import cmath
import math

import numpy as np

from mon import gen, ref

import fock_state_circuit as fsc

ID = 'P22'
CASES = {'quick': 12000, 'thorough': 200000}
RULE = 'distinct by the pair of states; non-trivial if the states share a component or one is a superposition'
REQUIRED_EVENTS = ['inner', 'outer', 'tensor:state', 'tensor:dict', 'tensor:list', 'tensor_in_circuit', 'tensor_associative', 'other_notation', 'vector_round_trip',
                   'vector_from_list', 'list_repeated', 'list_cancelled', 'photon_number', 'evolved_inner', 'not_normalised', 'multi_digit', 'reversed_notation',
                   'copy', 'initialised', 'tensor_repeated', 'orthogonal']
MIN_DISTINCT = 200
ASSUMPTIONS = ['amplitudes below the threshold probability may be dropped by the conversion from a vector, as documented']
TOL = 1e-6


def amps(rng, sp):
    a = gen.random_amps(rng, sp, rng.choice([None, None, rng.randint(0, min(3, (sp['L'] - 1) * sp['nch']))]))
    k = rng.choice([1, 1, 1, 0.5, 0.9 * cmath.exp(1j * gen.angle(rng)), 1j])
    return {o: k * x for o, x in a.items()}, k


def state(col, sp, a, how=0, rng=None):
    note = gen.notation(sp)
    s = fsc.State(col)
    if how == 0:
        s.optical_components = {note.name(o): {'amplitude': np.cdouble(x), 'probability': abs(x) ** 2} for o, x in a.items()}
    else:
        s.optical_components = [(note.name(o), x) for o, x in a.items()]
    return s


def inner(x, y):
    return sum(x[o].conjugate() * y[o] for o in x if o in y)


def components(mon, oc, note, what):
    """Components as returned or stored, with the probability law monitored."""
    out = {}
    for n, ap in oc.items():
        o = note.occ(n)
        mon.check(o not in out, lambda: '%s: component %r twice' % (what, n))
        out[o] = complex(ap['amplitude'])
        mon.close(float(ap['probability']), abs(out[o]) ** 2, TOL, lambda: '%s: probability of component %r' % (what, n), 'probability')
    return out


def same(mon, got, want, what, tol=TOL):
    for o in set(got) | set(want):
        mon.close(abs(got.get(o, 0) - want.get(o, 0)), 0, tol, lambda: '%s: amplitude of %s: %r, expected %r' % (what, o, got.get(o, 0), want.get(o, 0)), 'amplitude')


def product(a, b):
    return {x + y: p * q for x, p in a.items() for y, q in b.items()}


def run_case(rng, mon, idx, tier):
    sp = gen.spec(rng, max_dim=300, lengths=(2, 2, 3, 4, 5, 10, 11, 12), channels=(2, 3, 4, 2, 3, 4, 5, 6), ncl=(0, 2))
    note = gen.notation(sp)
    c = gen.circuit(sp)
    col = fsc.CollectionOfStates(c, input_collection_as_a_dict={})
    (a, ka), (b, kb), (d, kd) = amps(rng, sp), amps(rng, sp), amps(rng, sp)
    if rng.random() < 0.5:                 # overlapping supports
        b = {**b, **{o: complex(rng.gauss(0, 0.3), rng.gauss(0, 0.3)) for o in rng.sample(sorted(a), rng.randint(1, len(a)))}}
        kb = None
        n2 = math.sqrt(sum(abs(x) ** 2 for x in b.values()))
        if n2 > 1:
            b = {o: x / n2 for o, x in b.items()}
    sa, sb, sd = state(col, sp, a, rng.randint(0, 1)), state(col, sp, b, rng.randint(0, 1)), state(col, sp, d, rng.randint(0, 1))
    everything = [sa, sb, sd]
    what = 'states %s and %s in %s' % (gen.show(a), gen.show(b), {k: sp[k] for k in ('L', 'nch', 'left')})

    def prints(states):
        return [repr((s.initial_state, s.cumulative_probability, s.optical_components, s.classical_channel_values, s.measurement_results, s.state.get('auxiliary_information'))) for s in states]
    before = prints(everything)
    for s, x in zip(everything, (a, b, d)):
        same(mon, components(mon, s.optical_components, note, what), x, what + ': components of a new state')

    # inner products
    for s, x in zip(everything, (a, b, d)):
        for t, y in zip(everything, (a, b, d)):
            v, w = complex(s.inner(t)), inner(x, y)
            mon.close(abs(v - w), 0, TOL, lambda: '%s: inner product %r, expected %r of %s and %s' % (what, v, w, gen.show(x), gen.show(y)), 'inner')
            mon.close(abs(v - complex(t.inner(s)).conjugate()), 0, TOL, what + ': conjugate symmetry of the inner product')
            mon.check(abs(v) ** 2 <= complex(s.inner(s)).real * complex(t.inner(t)).real + TOL, what + ': inner product larger than the norms allow')
            mon.event('inner')
            if s is not t and abs(w) < 1e-12:
                mon.event('orthogonal')
    # vectors and outer products
    va, basis = sa.translate_state_components_to_vector()
    vb, basis2 = sb.translate_state_components_to_vector()
    va, vb = np.array(va), np.array(vb)
    mon.check(list(basis) == list(basis2) and sorted(note.occ(n) for n in basis) == sorted(note.basis()), what + ': basis of the vectors')
    for v, x in ((va, a), (vb, b)):
        same(mon, {note.occ(n): complex(v[i]) for i, n in enumerate(basis)}, x, what + ': vector')
    out = np.array(sa.outer(sb))
    mon.check(out.shape == (len(basis),) * 2, what + ': shape of the outer product %s' % (out.shape,))
    want = np.outer(np.conjugate(va), vb)
    mon.close(float(np.abs(out - want).max()), 0, TOL, what + ': outer product', 'outer')
    mon.close(abs(complex(np.trace(out)) - complex(sa.inner(sb))), 0, TOL, what + ': trace of the outer product is not the inner product')
    mon.close(float(np.abs(np.array(sb.outer(sa)) - out.conj().T).max()), 0, TOL, what + ': outer product of the states the other way around')
    mon.event('outer')
    # conversion
    s = sb.copy()
    mon.check(prints([s]) == prints([sb]), what + ': copy')
    mon.event('copy')
    vec = va.copy() if rng.random() < 0.5 else [complex(x) for x in va]
    if isinstance(vec, list):
        mon.event('vector_from_list')
    if rng.random() < 0.3:
        vec[rng.randrange(len(vec))] += 1e-9
    keep = repr(list(vec))
    s.set_state_components_from_vector(vec)
    mon.check(repr(list(vec)) == keep, what + ': the vector was changed')
    same(mon, components(mon, s.optical_components, note, what), a, what + ': state from vector')
    again, _ = s.translate_state_components_to_vector()
    mon.close(float(np.abs(np.array(again) - va).max()), 0, TOL, what + ': vector of the state from the vector')
    mon.event('vector_round_trip')
    # components as list with repetitions
    lst = []
    for o, x in a.items():
        for f in rng.choice([[1.0], [0.5, 0.5], [2, -1], [0.25, 0.5, 0.25], [1j, 1 - 1j]]):
            lst.append((note.name(o), x * f))
    if rng.random() < 0.4:
        o = gen.random_occ(rng, sp)
        lst += [(note.name(o), 0.3), (note.name(o), -0.3)]
        mon.event('list_cancelled')
    if len(lst) > len(a):
        mon.event('list_repeated')
    rng.shuffle(lst)
    keep = repr(lst)
    s = fsc.State(col)
    s.optical_components = lst
    same(mon, components(mon, s.optical_components, note, what), a, what + ': components from list %s' % lst)
    mon.check(repr(lst) == keep, what + ': list changed')
    # photon numbers
    numbers = [sum(o) for o in a]
    pn, equal = sa.photon_number()
    mon.check(pn == max(numbers) and bool(equal) == (max(numbers) == min(numbers)) and int(sa) == max(numbers) and sa == max(numbers) and not sa == max(numbers) + 1,
              lambda: '%s: photon number %s %s' % (what, pn, equal))
    mon.event('photon_number')
    mon.check(bool(sa), what + ': valid state reported invalid')
    used = sa.copy()
    used.classical_channel_values = [3] * sp['ncl']
    used.cumulative_probability = 0.25
    used.measurement_results = [{'measurement_results': [1] * sp['ncl'], 'probability': 0.25}]
    used.auxiliary_information = {'note': [1]}
    used.initial_state = 'something'
    used.initialize_this_state()
    for s in (sa.create_initialized_state(), fsc.State(col), used):
        same(mon, components(mon, s.optical_components, note, what), {(0,) * sp['nch']: 1}, what + ': initialised state')
        mon.check(s.cumulative_probability == 1 and s.measurement_results == [] and list(s.classical_channel_values) == [0] * sp['ncl']
                  and s.initial_state == note.name((0,) * sp['nch']) and not s.auxiliary_information, what + ': initialised state')
        s.classical_channel_values = [7] * sp['ncl']
        s.optical_components = [(note.name(next(iter(a))), 1)]
    mon.event('initialised')

    # tensor products
    nch2 = rng.choice([n for n in (2, 3) if sp['L'] ** n <= 150])
    sp2 = dict(sp, nch=nch2, ncl=rng.randint(0, 2), left=sp['left'] if rng.random() < 0.7 else not sp['left'])
    if sp['L'] ** (sp['nch'] + nch2) <= 20000:
        note2, c2 = gen.notation(sp2), gen.circuit(sp2)
        col2 = fsc.CollectionOfStates(c2, input_collection_as_a_dict={})
        (e, _), (f, _) = amps(rng, sp2), amps(rng, sp2)
        se, sf = state(col2, sp2, e), state(col2, sp2, f)
        everything += [se, sf]
        before = prints(everything)
        big = ref.Notation(sp['L'], sp['nch'] + nch2, sp['left'])
        t = sa.tensor(se)
        same(mon, components(mon, t, big, what), product(a, e), what + ': tensor product with state %s' % gen.show(e))
        mon.event('tensor:state')
        u = sb.tensor(state=sf)
        ip = inner(components(mon, t, big, what), components(mon, u, big, what))
        mon.close(abs(ip - inner(a, b) * inner(e, f)), 0, TOL, what + ': inner product of tensor products', 'tensor_inner')
        if sp2['left'] == sp['left']:
            t2 = sa.tensor(se.optical_components)
            same(mon, components(mon, t2, big, what), product(a, e), what + ': tensor product with dictionary %s' % gen.show(e))
            mon.event('tensor:dict')
            el = [(note2.name(o), x) for o, x in e.items()]
            if rng.random() < 0.5:
                el = [(n, x * g) for n, x in el for g in rng.choice([[1], [0.5, 0.5], [2, -1]])]
                if len(el) > len(e):
                    mon.event('tensor_repeated')
            t3 = sa.tensor(el)
            same(mon, components(mon, t3, big, what), product(a, e), what + ': tensor product with list %s' % el)
            mon.event('tensor:list')
            # associativity through the dictionaries
            if sp['L'] ** (sp['nch'] + 2 * nch2) <= 20000:
                spb = dict(sp, nch=sp['nch'] + nch2)
                cb = fsc.CollectionOfStates(gen.circuit(dict(spb, full=False)), input_collection_as_a_dict={})
                sab = fsc.State(cb)
                sab.optical_components = t
                left = sab.tensor(sf)
                right = sa.tensor(se.tensor(sf))
                three = ref.Notation(sp['L'], sp['nch'] + 2 * nch2, sp['left'])
                l3, r3 = components(mon, left, three, what), components(mon, right, three, what)
                same(mon, l3, r3, what + ': associativity of the tensor product')
                same(mon, l3, product(product(a, e), f), what + ': tensor product of three states')
                mon.event('tensor_associative')
                ext = fsc.State(cb)
                ext.optical_components = u
                mon.close(abs(complex(sab.inner(ext)) - inner(a, b) * inner(e, f)), 0, TOL, what + ': inner product of states in the larger circuit')
                mon.event('tensor_in_circuit')
        else:
            mon.event('other_notation')

    # inner products survive a circuit that keeps photon numbers below the limit
    if max(sum(o) for x in (a, b) for o in x) < sp['L'] and sp['L'] ** sp['nch'] <= 130:
        ops = [gen.op(rng, sp, ['half_wave_plate', 'wave_plate', 'mix_50_50', 'swap', 'custom_optical', 'phase'])for _ in range(rng.randint(1, 2))]
        ev, _ = gen.build(sp, ops)
        incol = fsc.CollectionOfStates(ev, input_collection_as_a_dict={})
        for n, x in (('a', a), ('b', b)):
            incol.add_state(state(incol, sp, x), identifier=n)
        r = [s for _, s in ev.evaluate_circuit(incol).items()]
        mon.check(len(r) == 2, what + ': two states expected')
        mon.close(abs(complex(r[0].inner(r[1])) - inner(a, b)), 0, 1e-4, lambda: '%s: inner product after %s' % (what, ops), 'evolved')
        mon.event('evolved_inner')
    mon.check(prints(everything) == before[:3] + prints(everything)[3:] and prints(everything)[:len(before)] == before, what + ': an operation changed its operands')
    if any(k is None or abs(abs(k) - 1) > 1e-6 for k in (ka, kb)):
        mon.event('not_normalised')
    if sp['L'] > 10:
        mon.event('multi_digit')
    if not sp['left']:
        mon.event('reversed_notation')
    if len(a) > 1 or set(a) & set(b):
        mon.nontrivial(what)
        mon.sample(dict(what=what, inner=repr(inner(a, b))))
