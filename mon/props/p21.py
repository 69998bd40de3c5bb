"""P21: reported histograms, correlations and drawn bars, monitored against statistics of the reported mixture."""
from mon import gen, ref, special, photons

import fock_state_circuit as fsc

ID = 'P21'
CASES = {'quick': 2500, 'thorough': 60000}
RULE = 'distinct by mixture and requests; non-trivial if a histogram with at least two outcomes was monitored'
REQUIRED_EVENTS = ['histogram', 'correlations', 'shared_outcome', 'shared_initial_state', 'source:direct', 'source:measured', 'source:photon', 'source:pairs',
                   'permuted_channels', 'repeated_channels', 'selected_initial_states', 'missing_outcome', 'reversed_notation', 'multi_digit',
                   'plotted', 'plotted_correlations', 'plotted_dict', 'wrapped_value', 'correlation_selection']
MIN_DISTINCT = 100
ASSUMPTIONS = ['classical values are reported as numbers 0..L-1, as documented', 'initial states of zero total weight are not asked for correlations']
TOL = 1e-6


def direct(rng, mon):
    sp = gen.spec(rng, max_dim=200, lengths=(2, 3, 4, 5, 9, 10, 11, 12), channels=(2,), ncl=(1, 5))
    if rng.random() < 0.02:
        sp['L'] = rng.choice([99, 100, 101])
    c = gen.circuit(sp)
    vals = rng.choice([[0, 1], [0, 1, 2], [0, 1, -1, sp['L'], sp['L'] - 1, sp['L'] + 1, 10], [0, 1.0, 2.0, 0.4, 1.7]])
    inits = rng.sample(['A', 'B', '00', '10', 'mixture-1', ''], rng.randint(1, 4))
    rs = []
    for _ in range(rng.randint(1, 9)):
        r = gen.rstates(rng, sp, 1, weights=True)[0]
        r.classical = [rng.choice(vals) for _ in range(sp['ncl'])]
        r.initial = rng.choice(inits)
        r.weight = round(rng.random() * rng.choice([1, 1, 1e-3]), 6) + 1e-6
        if rng.random() < 0.3:
            r.history.append((list(r.classical), 0.5))
        rs.append(r)
    if any(v != abs(int(v) % sp['L']) for r in rs for v in r.classical):
        mon.event('wrapped_value')
    return sp, c, gen.collection(c, sp, rs), 1e-9


def measured(rng, mon):
    sp = gen.spec(rng, max_dim=120, ncl=(2, 4))
    ops = [gen.op(rng, sp, ['half_wave_plate', 'mix_50_50', 'swap', 'shift', 'c_shift', 'phase']) for _ in range(rng.randint(1, 3))]
    k = rng.randint(1, min(sp['ncl'], sp['nch']))
    ops.append(dict(kind='measure', optical=rng.sample(range(sp['nch']), k), classical=rng.sample(range(sp['ncl']), k)))
    c, _ = gen.build(sp, ops)
    rs = gen.rstates(rng, sp, rng.randint(1, 3), weights=True)
    for r in rs:
        r.classical = [rng.choice([0, 1, 2]) for _ in r.classical]
    return sp, c, c.evaluate_circuit(gen.collection(c, sp, rs)), 1e-9


def photon(rng, mon, pairs=False):
    sp = gen.spec(rng, max_dim=30, lengths=(2, 3), channels=(4,) if pairs else (2, 3), ncl=(2, 4), full=False)
    if pairs:
        sp['L'] = 2
        ops = [special.pair_op(rng, sp)]
        ops += special.linear(rng, sp, rng.randint(0, 1)) if rng.random() < 0.4 else []
    else:
        ops = special.linear(rng, sp, rng.randint(0, 2)) + [special.delay_op(rng, sp)] + special.linear(rng, sp, rng.randint(1, 2))
    k = min(sp['ncl'], sp['nch'], rng.randint(1, 4))
    if pairs or rng.random() < 0.8:
        ops.append(dict(kind='measure', optical=rng.sample(range(sp['nch']), k), classical=rng.sample(range(sp['ncl']), k)))
    c, _ = special.build(sp, ops)
    rs = special.low_states(rng, sp, min(2, sp['L'] - 1), count=rng.randint(1, 2))
    if pairs:
        for r in rs:
            r.amps = {(0, 0, 0, 0): 1 + 0j}
    for r in rs:
        r.classical = [0] * sp['ncl']
    return sp, c, c.evaluate_circuit(gen.collection(c, sp, rs)), {r.initial: r.weight for r in rs}


def oracle(col, sp, channels, initial):
    """{initial state: {reported outcome: probability}}, straight from the states of the collection."""
    out = {}
    for _, s in col.items():
        if initial and s.initial_state not in initial:
            continue
        key = tuple(abs(int(s.classical_channel_values[ch]) % sp['L']) for ch in channels)
        d = out.setdefault(s.initial_state, {})
        d[key] = d.get(key, 0.0) + float(s.cumulative_probability)
    seen = {k for d in out.values() for k in d}
    for d in out.values():
        for k in seen:
            d.setdefault(k, 0.0)
    return out


def bars():
    """Heights of the bars of the figure drawn last, without the grey background."""
    import matplotlib.pyplot as plt
    fig = plt.gcf()
    h = sorted(round(float(p.get_height()), 9) for p in fig.axes[0].patches if abs(abs(p.get_height()) - 1.2) > 1e-12)
    labels = [t.get_text() for t in fig.axes[0].get_xticklabels()]
    leg = [t.get_text() for t in fig.axes[0].get_legend().get_texts()]
    plt.close('all')
    return h, labels, leg


def run_case(rng, mon, idx, tier):
    src = rng.choice(['direct'] * 6 + ['measured'] * 3 + ['photon', 'pairs'])
    if src == 'direct':
        sp, c, col, tol = direct(rng, mon)
    elif src == 'measured':
        sp, c, col, tol = measured(rng, mon)
    else:
        sp, c, col, tol = photon(rng, mon, src == 'pairs')
    if len(col) == 0:
        return
    mon.event('source:' + src)
    photon_resolved = col.is_photon_resolved()
    what = '%s L=%d left=%s' % (src, sp['L'], sp['left'])
    if src in ('photon', 'pairs'):
        given, tol = tol, 1e-9
    before = gen.fingerprint(col, sp)
    states = [s for _, s in col.items()]
    inits = list(dict.fromkeys(s.initial_state for s in states))
    weight = {}
    for s in states:
        weight[s.initial_state] = weight.get(s.initial_state, 0.0) + float(s.cumulative_probability)
    if photon_resolved:        # fragments of one photon-resolved state share its weight
        weight = given
    allc = list(range(sp['ncl']))
    full = None
    nout = 0

    def unchanged(where):
        mon.check(gen.fingerprint(col, sp) == before, lambda: '%s: %s changed the collection' % (what, where))
        mon.check([s for _, s in col.items()] == states and all(a is b for a, b in zip((s for _, s in col.items()), states)), what + ': states replaced by ' + where)

    def request():
        k = rng.random()
        ch = list(allc)
        if k < 0.35:
            ch = rng.sample(allc, rng.randint(1, len(allc)))
        elif k < 0.5:
            ch = [rng.choice(allc) for _ in range(rng.randint(1, 4))]
        ini = rng.sample(inits, rng.randint(1, len(inits))) if rng.random() < 0.4 else []
        if ini and rng.random() < 0.3:
            ini = ini + ['absent']
        return ch, ini

    def histogram(ch, ini, implicit):
        kw = dict(histo_output_instead_of_plot=True)
        if not implicit:
            kw['classical_channels'] = list(ch)
        if ini:
            kw['initial_states'] = list(ini)
        h = col.plot(**kw)
        digits = len(str(sp['L'] - 1))
        out = {}
        for i, lst in h.items():
            d = out[i] = {}
            for e in lst:
                mon.check(set(e) == {'output_state', 'probability'}, what + ': entry %s' % e)
                name = e['output_state']
                mon.check(len(name) == digits * len(ch), lambda: '%s: outcome %r for channels %s' % (what, name, ch))
                v = [int(name[k:k + digits]) for k in range(0, len(name), digits)]
                v = tuple(v if sp['left'] else v[::-1])
                mon.check(v not in d, lambda: '%s: outcome %s listed twice for %r' % (what, v, i))
                d[v] = float(e['probability'])
        return out, h

    for _ in range(rng.randint(2, 3)):
        ch, ini = request()
        implicit = ch == allc and rng.random() < 0.5
        got, raw = histogram(ch, ini, implicit)
        mon.event('histogram')
        where = '%s channels %s initial states %s' % (what, ch, ini)
        selected = [i for i in inits if not ini or i in ini]
        mon.check(list(got) == selected or set(got) == set(selected), lambda: '%s: initial states %s, expected %s' % (where, list(got), selected))
        for i, d in got.items():
            mon.close(sum(d.values()), weight[i], 2e-4 if photon_resolved else TOL, lambda: '%s: probabilities of initial state %r' % (where, i), 'total')
            mon.check(set(d) == set(next(iter(got.values()))), where + ': initial states list different outcomes')
            mon.check(all(p >= 0 for p in d.values()), where + ': negative probability')
            nout = max(nout, len(d))
        if not photon_resolved:
            want = oracle(col, sp, ch, ini)
            for i, d in want.items():
                mon.check(set(got[i]) == set(d), lambda: '%s: outcomes %s, expected %s' % (where, sorted(got[i]), sorted(d)))
                for k, p in d.items():
                    mon.close(got[i][k], p, tol, lambda: '%s: probability of %s from %r' % (where, k, i), 'probability')
                    if p == 0:
                        mon.event('missing_outcome')
        # a histogram of fewer channels is the marginal of the full one
        if full is None:
            full, _ = histogram(allc, [], True)
        for i, d in got.items():
            marg = {}
            for k, p in full[i].items():
                key = tuple(k[x] for x in ch)
                marg[key] = marg.get(key, 0.0) + p
            for k in set(marg) | set(d):
                mon.close(d.get(k, 0.0), marg.get(k, 0.0), TOL, lambda: '%s: outcome %s of %r against the histogram of all channels' % (where, k, i), 'marginal')
        unchanged('a histogram')
        again, _ = histogram(ch, ini, False)
        mon.check(again.keys() == got.keys() and all(again[i].keys() == got[i].keys() and all(abs(again[i][k] - got[i][k]) < 1e-9 for k in got[i]) for i in got),
                  where + ': second histogram differs')
        if ch != sorted(ch):
            mon.event('permuted_channels')
        if len(set(ch)) < len(ch):
            mon.event('repeated_channels')
        if ini:
            mon.event('selected_initial_states')
        if idx % 12 == 0:
            col.plot(classical_channels=list(ch), initial_states=list(ini))
            h, labels, leg = bars()
            flat = sorted(round(e['probability'], 9) for lst in raw.values() for e in lst)
            mon.check(len(h) == len(flat) and all(abs(a - b) < TOL for a, b in zip(h, flat)), lambda: '%s: bars %s, histogram %s' % (where, h, flat))
            mon.check(labels == list(raw), lambda: '%s: labels %s, initial states %s' % (where, labels, list(raw)))
            mon.check(sorted(leg) == sorted({e['output_state'] for lst in raw.values() for e in lst}), where + ': legend')
            unchanged('a plot')
            mon.event('plotted')
    if len(set(s.initial_state for s in states)) < len(states):
        mon.event('shared_initial_state')
    if not photon_resolved and any(len([1 for t in states if t.initial_state == s.initial_state and list(t.classical_channel_values) == list(s.classical_channel_values)]) > 1 for s in states):
        mon.event('shared_outcome')
    if not sp['left']:
        mon.event('reversed_notation')
    if sp['L'] > 10:
        mon.event('multi_digit')

    # correlations
    if sp['ncl'] >= 2 and all(sum(full[i].values()) > 1e-9 for i in full):
        pairs = [tuple(rng.sample(allc, 2)) if rng.random() < 0.9 else (0, 0) for _ in range(rng.randint(1, 4))]
        ini = rng.sample(inits, rng.randint(1, len(inits))) if rng.random() < 0.4 else []
        kw = dict(initial_states_to_assess=list(ini)) if ini else {}
        cor = col.plot_correlations(list(pairs), correlation_output_instead_of_plot=True, **kw)
        where = '%s correlations %s initial states %s' % (what, pairs, ini)
        if ini:
            mon.event('correlation_selection')
        mon.check(set(cor) == {i for i in inits if not ini or i in ini}, lambda: '%s: reported for %s' % (where, list(cor)))
        for i, lst in cor.items():
            mon.check(len(lst) == len(pairs), where + ': number of values')
            tot = sum(full[i].values())
            for (a, b), v in zip(pairs, lst):
                e = sum(p if k[a] == k[b] else -p for k, p in full[i].items()) / tot
                mon.close(float(v), e, TOL, lambda: '%s: channels %d and %d of %r' % (where, a, b, i), 'correlation')
                if not photon_resolved:
                    eq = sum(float(s.cumulative_probability) * (1 if int(s.classical_channel_values[a]) % sp['L'] == int(s.classical_channel_values[b]) % sp['L'] else -1)
                             for s in states if s.initial_state == i) / weight[i]
                    mon.close(float(v), eq, TOL, lambda: '%s: channels %d and %d of %r' % (where, a, b, i), 'correlation')
        mon.event('correlations')
        unchanged('reporting correlations')
        if idx % 12 == 0:
            col.plot_correlations(list(pairs), **kw)
            h, labels, leg = bars()
            flat = sorted(round(float(v), 9) for lst in cor.values() for v in lst)
            mon.check(len(h) == len(flat) and all(abs(a - b) < TOL for a, b in zip(h, flat)), lambda: '%s: bars %s, correlations %s' % (where, h, flat))
            mon.check(labels == list(cor), where + ': labels')
            mon.event('plotted_correlations')
            unchanged('plotting correlations')
            from fock_state_circuit.visualization.plot import plot_correlations_from_dict
            key = rng.choice(['correlation', 'probability'])
            d = {i: [{'output_state': 'p%d' % j, key: float(v)} for j, v in enumerate(lst)] for i, lst in cor.items()}
            keep = repr(d)
            plot_correlations_from_dict(d)
            h, labels, leg = bars()
            mon.check(len(h) == len(flat) and all(abs(a - b) < TOL for a, b in zip(h, flat)) and labels == list(d) and leg == ['p%d' % j for j in range(len(pairs))],
                      lambda: '%s: plotted dictionary shows %s, expected %s' % (where, h, flat))
            mon.check(repr(d) == keep, where + ': dictionary changed by plotting')
            mon.event('plotted_dict')
    # the later life of the collection is that of one that was never reported
    mon.check(col.plot.__func__.__defaults__ == ([], [], {}, False), 'default arguments of plot changed: %r' % (col.plot.__func__.__defaults__,))
    if nout >= 2:
        mon.nontrivial(what, before)
        mon.sample(dict(what=what, histogram={i: {str(k): p for k, p in list(d.items())[:4]} for i, d in list(full.items())[:2]}))
