"""P23: drawing and printing, monitored as observers: what is drawn, and that nothing else happens."""
import re
import matplotlib
matplotlib.use('Agg')
import matplotlib.pyplot as plt
from matplotlib.colors import to_hex
from matplotlib.lines import Line2D
from matplotlib.patches import Rectangle
import numpy as np

from mon import gen, ref, special, photons

import fock_state_circuit as fsc

ID = 'P23'
CASES = {'quick': 500, 'thorough': 8000}
RULE = 'distinct by circuits, settings and requests; non-trivial if at least three nodes were found back in drawings'
REQUIRED_EVENTS = ['drawn:circuit', 'drawn:compound', 'drawn:station', 'drawn:compound_station', 'printed', 'unnamed', 'several_pages', 'one_node_per_line', 'combined_gate',
                   'drawn_before_evaluation', 'drawn_twice', 'printed_after_measurement', 'default_node_information', 'marker_order_checked', 'bridge_drawn', 'nodes_above_each_other', 'title_checked', 'circuit_name_checked', 'channel_label_checked', 'connections_checked',
                   'station_selection_list', 'station_selection_one', 'printed_photon_resolved', 'settings_given', 'evaluated_after']
MIN_DISTINCT = 60
ASSUMPTIONS = ['non-interactive backend of matplotlib', 'a station is drawn only if it has at least one node, as documented for empty circuits']

LINEAR = ['wave_plate', 'half_wave_plate', 'quarter_wave_plate', 'half_wave_plate_45', 'half_wave_plate_225', 'quarter_wave_plate_45', 'quarter_wave_plate_225', 'swap',
          'mix_50_50', 'mix_generic', 'pbs', 'npbs', 'npbs_50_50', 'custom_optical', 'phase']
OTHER = ['phase_cc', 'wave_plate_cc', 'measure', 'set_classical', 'classical_function', 'shift', 'c_shift', 'shift_direct', 'c_shift_direct', 'custom_fock']
GATES = ('npbs', 'npbs_50_50')


def plain(x, depth=0):
    """Node content as comparable plain data."""
    if isinstance(x, fsc.FockStateCircuit):
        return circuit_print(x)
    if isinstance(x, np.ndarray):
        return ('array', x.shape, x.tobytes())
    if isinstance(x, dict):
        return tuple((k, plain(v, depth + 1)) for k, v in x.items())
    if isinstance(x, (list, tuple)):
        return (type(x).__name__,) + tuple(plain(v, depth + 1) for v in x)
    return repr(x)


def circuit_print(c):
    return (c._circuit_name, c._no_of_optical_channels, c._no_of_classical_channels, c._length_of_fock_state, tuple(plain(n) for n in c.node_list))


class Drawing:
    """Markers and labels of the figures on screen, by page and position, and what later covers them."""

    def __init__(self, mon, what):
        self.markers = {}       # colour -> list of (page, x, y)
        self.labels = {}
        self.texts = []         # (text, page, x, y)
        self.titles = []
        self.pages = 0
        self.figures = len(plt.get_fignums())
        if self.figures != 1:
            return
        fig = plt.gcf()
        for page, ax in enumerate(fig.axes):
            self.pages += 1
            self.titles.append(ax.get_title())
            children = ax.get_children()
            for i, ch in enumerate(children):
                if isinstance(ch, Line2D) and len(ch.get_xdata()) == 1 and ch.get_marker() not in ('', 'None', None):
                    colour = to_hex(ch.get_color())
                    x, y = float(np.ravel(ch.get_xdata())[0]), float(np.ravel(ch.get_ydata())[0])
                    hidden = any(isinstance(r, Rectangle) and r.get_facecolor()[:3] == (1, 1, 1) and r.get_width() > 0 and r is not ax.patch
                                 and r.get_zorder() == 2 and r.get_x() < x for r in children[i + 1:])
                    self.markers.setdefault(colour, []).append((page, x, y, hidden))
                elif hasattr(ch, 'get_text') and ch.get_text():
                    self.labels.setdefault(ch.get_text(), []).append(page)
                    if hasattr(ch, 'xy'):
                        self.texts.append((ch.get_text(), page, float(ch.xy[0]), float(ch.xy[1])))
        plt.close('all')


def make(rng, mon, sp, serial, name):
    """One circuit with nodes which can be recognised in a drawing."""
    n = rng.choice([1, 2, 3, 4, 6, 9, 13])
    c = gen.circuit(sp, name)
    low = sp['L'] ** sp['nch'] <= 30
    nodes = []
    last_combined = None
    run = rng.random() < 0.2 and sp['nch'] >= 4
    for _ in range(n):
        k = rng.random()
        o = None
        if run and rng.random() < 0.8:
            o = gen.op(rng, sp, ['npbs', 'npbs_50_50'] if rng.random() < 0.3 else ['npbs'])
        elif k < 0.12 and low:
            o = special.delay_op(rng, sp)
        elif k < 0.16 and low:
            o = special.width_op(rng, sp)
        elif k < 0.2:
            a, b = rng.sample(range(sp['nch']), 2)
            o = dict(kind='ham_plate', a=a, b=b, theta=gen.angle(rng), phi=gen.angle(rng))
        elif k < 0.24 and sp['nch'] >= 4 and low:
            o = special.pair_op(rng, sp)
        elif k < 0.34 and sp['ncl'] > 1:
            m = rng.randint(2, min(sp['nch'], sp['ncl']))
            o = dict(gen.op(rng, sp, ['measure']), optical=rng.sample(range(sp['nch']), m), classical=rng.sample(range(sp['ncl']), m))
        else:
            kinds = LINEAR + (OTHER if sp['ncl'] else [x for x in OTHER if 'shift' in x])
            if not low:
                kinds = [x for x in kinds if x != 'custom_fock']
            o = gen.op(rng, sp, kinds)
        made = special.add_op(c, o)
        for j in made:
            info = c.node_list[j].get('node_info')
            node = dict(kind=o['kind'], label=None, colour=None, opt=list((info or {}).get('channels_optical', [])), cla=list((info or {}).get('channels_classical', [])),
                        gate=(info or {}).get('combined_gate', 'single'), index=len(nodes))
            if info is not None and serial['mark']:
                serial['n'] += 1
                node['label'] = 'N%dx' % serial['n']
                node['colour'] = '#%02x%02x01' % (serial['n'] // 200 + 1, serial['n'] % 200 + 1)
                c.node_list[j]['node_info'] = {**info, 'label': node['label'], 'markercolor': [node['colour']], 'classical_marker_color': [node['colour']]}
            else:
                node['label'] = (info or {}).get('label')
            if node['gate'] != 'single':
                mon.event('combined_gate')
            nodes.append(node)
    return c, nodes


def check_drawing(mon, d, nodes, what, marked, opt_map, cla_map, station=False, others=None, names=None, title=None, channel_text=None, sizes=(99, 99)):
    """nodes: per circuit of the compound, in order.  Every node that touches the mapped channels must be found back in order."""
    mon.check(d.figures == 1, lambda: '%s: %d figures' % (what, d.figures))
    found = 0
    order = {}
    for circuit in nodes:
        shown = [n for n in circuit if any(c in opt_map for c in n['opt']) or any(c in cla_map for c in n['cla'])] if station else circuit
        for i, n in enumerate(shown):
            chans = [('o', opt_map[c]) for c in n['opt'] if c in opt_map] + [('c', cla_map[c]) for c in n['cla'] if c in cla_map]
            first_of_gate = n['gate'] == 'single' or i == 0 or shown[i - 1]['gate'] != n['gate']
            if not chans:
                continue
            found += 1
            if n['label'] and first_of_gate:
                mon.check(n['label'] in d.labels, lambda: '%s: node %s is not labelled in the drawing' % (what, n))
            if not marked:
                continue
            marks = d.markers.get(n['colour'], [])
            mon.check(len(marks) == len(set(chans)) or len(marks) == len(chans), lambda: '%s: node %s drawn with markers %s, expected on %s' % (what, n, marks, chans))
            mon.check(not any(h for _, _, _, h in marks), lambda: '%s: node %s is covered in the drawing' % (what, n))
            mon.check(len({(p, round(x, 6)) for p, x, _, _ in marks}) == 1, lambda: '%s: node %s drawn on several positions %s' % (what, n, marks))
            # top to bottom: optical channels in order, then classical channels
            ys = sorted({round(-y, 6) for _, _, y, _ in marks})
            for ch, y in zip(sorted(set(chans), key=lambda t: (t[0] != 'o', t[1])), ys):
                order.setdefault(ch, []).append((marks[0][0], marks[0][1], n, -y))
    for ch, seq in order.items():
        mon.check(len({round(s[3], 4) for s in seq}) == 1, lambda: '%s: channel %s drawn on different lines %s' % (what, ch, {round(s[3], 4) for s in seq}))
        pos = [(s[0], round(s[1], 6)) for s in seq]
        mon.check(all(a < b for a, b in zip(pos, pos[1:])), lambda: '%s: nodes on channel %s drawn out of order or on top of each other: %s'
                  % (what, ch, [(s[0], s[1], s[2]['label'], s[2]['kind']) for s in seq]))
        mon.event('marker_order_checked')
    if order:
        lines = [seq[0][3] for ch, seq in sorted(order.items(), key=lambda t: (t[0][0] != 'o', t[0][1]))]
        mon.check(all(a > b for a, b in zip(lines, lines[1:])), what + ': channels drawn in the wrong order')
    places = {}
    for ch, seq in order.items():
        for page, x, n, y in seq:
            places.setdefault((page, round(x, 6)), {}).setdefault(n['colour'], []).append(y)
    for place, here in places.items():
        spans = sorted((min(v), max(v)) for v in here.values())
        mon.check(all(a[1] < b[0] for a, b in zip(spans, spans[1:])), lambda: '%s: nodes drawn over each other at %s' % (what, place))
        mon.event('nodes_above_each_other', len(spans) > 1)
    # text: titles, names of circuits, labels of channels, pages, connections to other stations
    if title is not None:
        mon.check(d.titles[:1] == [title], lambda: '%s: titles %s instead of %s' % (what, d.titles, title))
        mon.event('title_checked')
    for n in names or []:
        mon.check(n in d.labels, lambda: '%s: name %r of a circuit missing' % (what, n))
        mon.event('circuit_name_checked')
    mon.check(sorted({p for t, p, _, _ in d.texts if re.fullmatch(r'Page \d+', t)}) == list(range(d.pages)) and all(t == 'Page %d' % (p + 1) for t, p, _, _ in d.texts if re.fullmatch(r'Page \d+', t)),
              lambda: '%s: pages %s' % (what, [(t, p) for t, p, _, _ in d.texts if t.startswith('Page')]))
    if channel_text is not None:
        height = {ch: -seq[0][3] for ch, seq in order.items()}
        first = nodes[0]
        expected = {channel_text(ch): ch for ch in [('o', i) for i in sorted(opt_map.values())] + [('c', i) for i in sorted(cla_map.values())]}
        for t, p, x, y in d.texts:
            if t in expected and expected[t] in height:
                mon.close(y, -height[expected[t]], 1e-6, lambda: '%s: label %r on the line of another channel' % (what, t))
                mon.event('channel_label_checked')
        # (a circuit with fewer channels than later ones, and a station which lists them in another order, is not claimed)
        complete = not station or (all(c < sizes[0] for c in opt_map) and all(c < sizes[1] for c in cla_map))
        for n in first if complete else []:
            for ch in [('o', opt_map[c]) for c in n['opt'] if c in opt_map] + [('c', cla_map[c]) for c in n['cla'] if c in cla_map]:
                mon.check(channel_text(ch) in d.labels, lambda: '%s: no label %r' % (what, channel_text(ch)))
    if others is not None:
        wanted = sorted('To station(s):\n' + ','.join(sorted(others(n))) for c in nodes for n in c if others(n) and (set(n['opt']) & set(opt_map) or set(n['cla']) & set(cla_map)))
        got = sorted(t for t, _, _, _ in d.texts if t.startswith('To station'))
        mon.check(got == wanted, lambda: '%s: connections %s, expected %s' % (what, got, wanted))
        mon.event('connections_checked', bool(wanted))
    if d.pages > 1:
        mon.event('several_pages')
    return found


def run_case(rng, mon, idx, tier):
    plt.close('all')
    sp = gen.spec(rng, max_dim=64, lengths=(2, 2, 2, 3, 4), channels=(2, 3, 4, 5), ncl=(0, 3))
    serial = dict(n=0, mark=rng.random() < 0.8)
    if not serial['mark']:
        mon.event('default_node_information')
    names = [None, 'circuit A', 'B', '', 'a long name for a circuit']
    ncirc = rng.choice([1, 1, 1, 2, 3])
    circuits, nodes = [], []
    for i in range(ncirc):
        spi = dict(sp)
        if i:
            while True:
                spi['nch'], spi['ncl'] = rng.choice([2, 3, 4]), rng.randint(0, 3)
                if sp['L'] ** spi['nch'] <= 64:
                    break
        c, n = make(rng, mon, spi, serial, rng.choice(names))
        if c._circuit_name is None:
            mon.event('unnamed')
        circuits.append(c)
        nodes.append(n)
    lines = rng.choice([10, 10, 2, 3, 5, 1])
    if lines == 1:
        mon.event('one_node_per_line')
    settings = rng.choice([None, {}, dict(number_of_nodes_on_a_line=lines), dict(number_of_nodes_on_a_line=lines, compound_circuit_title='T', node_label_font_size=5,
                                                                                figure_width_in_inches=8)])
    if settings:
        mon.event('settings_given')
    lines = (settings or {}).get('number_of_nodes_on_a_line', 10)
    what = 'circuits %s settings %s' % ([[(n['kind'], n['opt'], n['cla']) for n in ns] for ns in nodes], settings)
    ev = 'evaluate' in rng.choice([('evaluate',), ()]) and all(not any(n['kind'] in ('pr',) or 'delay' in n['kind'] or n['kind'] == 'set_pulse_width' for n in ns) for ns in nodes)
    bridging = rng.random() < 0.5 and ncirc > 1
    if bridging:
        for a, b in zip(circuits, circuits[1:]):
            a.bridge(b)
            mon.event('bridge_drawn')
        compound = None
        obj = circuits[0]
    else:
        compound = fsc.CompoundFockStateCircuit(list(circuits), rng.choice([None, 'compound'])) if ncirc > 1 else None
        obj = compound or circuits[0]

    def prints():
        return [circuit_print(c) for c in circuits] + ([circuit_print(c) for c in compound._list_of_circuits_with_bridges] + [compound.compound_circuit_name] if compound else [])
    defaults = (plain(fsc.FockStateCircuit._CIRCUIT_DRAW_DEFAULT_SETTINGS), plain(fsc.FockStateCircuit._NODE_DRAW_DEFAULT_SETTINGS))
    before = prints()
    col = None
    if ev:
        r = gen.rstates(rng, sp, 1, fixed_number=rng.randint(0, 1))
        for s in r:
            s.classical = [rng.choice([0, 1]) for _ in range(sp['ncl'])]
        col = gen.collection(circuits[0], sp, r)
        colprint = gen.fingerprint(col, sp)
    texts = {}

    def unchanged(where):
        now = prints()
        mon.check(now == before, lambda: '%s: %s changed the circuit: %s' % (what, where, next((p[0:4], q[0:4], [(x, y) for x, y in zip(p[4], q[4]) if x != y][:1])
                                                                                             for p, q in zip(before, now) if p != q)))
        mon.check((plain(fsc.FockStateCircuit._CIRCUIT_DRAW_DEFAULT_SETTINGS), plain(fsc.FockStateCircuit._NODE_DRAW_DEFAULT_SETTINGS)) == defaults,
                  lambda: '%s: %s changed the default settings' % (what, where))
        if col is not None:
            mon.check(gen.fingerprint(col, sp) == colprint, lambda: '%s: %s changed the collection' % (what, where))

    def result():
        rows = []
        for s in gen.observe(obj.evaluate_circuit(col), last):
            amps = sorted((o, round(a.real, 4), round(a.imag, 4)) for o, a in s.amps.items() if abs(a) > 1e-3)
            rows.append((s.initial, tuple(map(ref.canon, s.classical)), round(s.weight, 5), amps))
        return sorted(rows, key=repr)
    last = dict(sp, nch=circuits[-1]._no_of_optical_channels, ncl=circuits[-1]._no_of_classical_channels)
    title = (settings or {}).get('compound_circuit_title', 'Optical circuit') if settings is not None or not compound else compound.compound_circuit_name
    total = 0
    opt_all, cla_all = {i: i for i in range(50)}, {i: i for i in range(50)}
    steps = ['draw', 'print'] + (['draw'] if rng.random() < 0.3 else []) + (['station'] if rng.random() < 0.6 else []) + (['evaluate'] if ev else [])
    rng.shuffle(steps)
    evaluated, drawn, first_result = False, 0, None
    for step in steps:
        if step == 'print':
            for c in circuits + ([compound] if compound else []):
                t = str(c)
                mon.check(isinstance(t, str) and len(t) > 10, what + ': printed circuit')
                mon.check(texts.setdefault(id(c), t) == t, what + ': circuit prints differently')
            if compound:
                mon.check(all(str(c) in str(compound) for c in circuits), what + ': circuits missing in the printed compound circuit')
            mon.check(len(circuits[0].conventions()) > 100, what + ': conventions')
            mon.event('printed')
            unchanged('printing')
        elif step == 'evaluate':
            res = result()
            if drawn:
                mon.event('evaluated_after')
            if first_result is None:
                first_result = res
            else:
                mon.check(res == first_result, lambda: '%s: result %s, earlier %s' % (what, res, first_result))
            evaluated = True
            out = obj.evaluate_circuit(col)
            for _, s in out.items():       # a longer history, from circuits before this one
                if rng.random() < 0.5:
                    s.measurement_results = [{'measurement_results': [rng.choice([0, 1, 2.5, 300])] * len(s.classical_channel_values), 'probability': round(rng.random(), 3)}
                                             for _ in range(rng.choice([1, 2, 3]))] + list(s.measurement_results)
            fp = gen.fingerprint(out, last)
            for flag in (True, False):
                out.print_only_last_measurement = flag
                for s in [out] + [s for _, s in out.items()]:
                    t = str(s)
                    mon.check(gen.fingerprint(out, last) == fp, what + ': printing once changed the collection')
                    mon.check(t == str(s) and repr(s) is not None, what + ': printing twice differs')
                for _, s in out.items():
                    mon.check(all(('%r' % n) in str(s) for n in s.optical_components), what + ': component missing in printed state')
                    mon.check(all(n in s.print_optical_components() for n in s.optical_components), what + ': component missing in printed components')
                if any(s.measurement_results for _, s in out.items()):
                    mon.event('printed_after_measurement')
            mon.check(gen.fingerprint(out, last) == fp, what + ': printing changed the collection')
            unchanged('evaluation and printing')
        elif step == 'draw':
            keep = plain(settings)
            if rng.random() < 0.1:
                obj.draw(print_defaults=True, settings_for_drawing_circuit=settings)
            elif settings is None:
                obj.draw()
            else:
                obj.draw(settings_for_drawing_circuit=settings)
            mon.check(plain(settings) == keep, what + ': drawing changed the settings')
            d = Drawing(mon, what)
            total += check_drawing(mon, d, nodes, what, serial['mark'], opt_all, cla_all, names=[c._circuit_name for c in circuits if c._circuit_name], title=title,
                                   channel_text=lambda ch: ('optical %d' if ch[0] == 'o' else 'classical %d') % ch[1])
            mon.event('drawn:compound' if ncirc > 1 else 'drawn:circuit')
            if not evaluated:
                mon.event('drawn_before_evaluation')
            if drawn:
                mon.event('drawn_twice')
            drawn += 1
            unchanged('drawing')
        else:
            # stations: channels dealt out at random
            st = ['alice', 'bob', 'charlie'][:rng.choice([1, 2, 3, 3])]
            station = {s: {} for s in st}
            nopt, ncla = max(c._no_of_optical_channels for c in circuits), max(c._no_of_classical_channels for c in circuits)
            for kind, num in (('optical_channels', nopt), ('classical_channels', ncla)):
                for ch in rng.sample(range(num), num):
                    if rng.random() < 0.9:
                        station[rng.choice(st)].setdefault(kind, []).append(ch)
            for s in st:
                if rng.random() < 0.7:
                    for kind in ('optical_channels', 'classical_channels'):
                        station[s].setdefault(kind, [])
                        if rng.random() < 0.7:
                            station[s][kind].sort()
            has = {s: all(any(set(n['opt']) & set(station[s].get('optical_channels', [])) or set(n['cla']) & set(station[s].get('classical_channels', [])) for n in ns)
                          for ns in nodes[-1:]) for s in st}
            want = [s for s in st if has[s]]
            if not want:
                continue
            arg = dict(station_channels=station)
            k = rng.random()
            if k < 0.4:
                want = [rng.choice(want)]
                arg['station_to_draw'] = want[0]
                mon.event('station_selection_one')
            elif k < 0.7 or len(want) < len(st):
                want = rng.sample(want, rng.randint(1, len(want)))
                arg['station_to_draw'] = list(want)
                mon.event('station_selection_list')
            shown = []
            show, keep = plt.show, (plain(arg), plain(settings))
            where = '%s stations %s' % (what, arg)

            def collect(*a, **k):
                shown.append(Drawing(mon, what))
            plt.show = collect
            try:
                if settings is None:
                    obj.draw_station(stations=arg)
                else:
                    obj.draw_station(stations=arg, settings_for_drawing_circuit=settings)
            finally:
                plt.show = show
            mon.check((plain(arg), plain(settings)) == keep, lambda: '%s: drawing stations changed the request, now %s' % (where, arg))
            mon.check(len(shown) == len(want), lambda: '%s: %d drawings, expected %s' % (where, len(shown), want))
            for s, d in zip(want, shown):
                def others(n, s=s):
                    found = set()
                    for t in station:
                        if t == s:
                            continue
                        o = {k: set(station[t].get(k + '_channels', [])) for k in ('optical', 'classical')}
                        here = {k: set(station[s].get(k + '_channels', [])) for k in ('optical', 'classical')}
                        if n['kind'].startswith('measure'):
                            if any((a in here['optical'] or b in here['classical']) and (a in o['optical'] or b in o['classical']) for a, b in zip(n['opt'], n['cla'])):
                                found.add(t)
                        elif o['optical'] & set(n['opt']) or o['classical'] & set(n['cla']):
                            found.add(t)
                    return found
                total += check_drawing(mon, d, nodes, '%s, station %s' % (where, s), serial['mark'],
                                       {c: i for i, c in enumerate(station[s].get('optical_channels', []))}, {c: i for i, c in enumerate(station[s].get('classical_channels', []))}, True,
                                       others=others, title=title + ', station: ' + s,
                                       sizes=(circuits[0]._no_of_optical_channels, circuits[0]._no_of_classical_channels), channel_text=lambda ch, s=s: s + (', Opt.%d' if ch[0] == 'o' else ', Clas.%d') % ch[1])
                elsewhere = [n for ns in nodes for n in ns if not set(n['opt']) & set(station[s].get('optical_channels', [])) and not set(n['cla']) & set(station[s].get('classical_channels', []))]
                if serial['mark']:
                    mon.check(not any(n['colour'] in d.markers for n in elsewhere), lambda: '%s: station %s shows nodes of other stations' % (where, s))
            mon.event('drawn:compound_station' if ncirc > 1 else 'drawn:station')
            drawn += 1
            unchanged('drawing stations')
    # photon-resolved states can be printed
    if idx % 5 == 0:
        spp = gen.spec(rng, max_dim=30, lengths=(2, 3), channels=(2, 3), ncl=(0, 2), full=False)
        ops = special.linear(rng, spp, 1) + [special.delay_op(rng, spp)]
        c, _ = special.build(spp, ops)
        out = c.evaluate_circuit(gen.collection(c, spp, special.low_states(rng, spp, spp['L'] - 1, count=1)))
        fp = gen.fingerprint(out, spp)
        t = str(out)
        mon.check('photon_resolution' in t and str(out) == t and repr(out) == repr(out) and gen.fingerprint(out, spp) == fp, '%s: printing photon-resolved states' % ops)
        mon.event('printed_photon_resolved')
    if total >= 3:
        mon.nontrivial(what, steps)
        mon.sample(dict(circuits=[[n['kind'] for n in ns] for ns in nodes], steps=steps, nodes_found=total))
