"""P03: evaluation schedules of one program agree."""
from mon import gen, ref

ID = 'P03'
CASES = {'quick': 1500, 'thorough': 30000}
RULE = ('distinct by circuit shape, operation kinds, input sizes and set of schedules compared; non-trivial if the program has at '
        'least two nodes and two schedules were compared')
REQUIRED_EVENTS = ['schedules_compared', 'node_lists_compared', 'matrix_modes_compared', 'repeats_compared']
MIN_DISTINCT = 30
ASSUMPTIONS = ['threshold for dropping components set to 1e-12, so that dropping cannot make schedules differ']
TOL = 3e-4
KINDS = ref.OPTICAL + ('phase_cc', 'wave_plate_cc', 'measure', 'set_classical', 'classical_function', 'shift', 'shift_direct',
                       'c_shift', 'c_shift_direct', 'custom_fock')


def disturb(rng, c, sp, mon):
    """Other legal uses of the same circuit in between."""
    note = gen.notation(sp)
    for _ in range(rng.randint(1, 3)):
        k = rng.randrange(4)
        if k == 0:
            c.evaluate_circuit(gen.collection(c, sp, gen.rstates(rng, sp)))
        elif k == 1:
            rng.choice(list(c.basis().keys()))
        elif k == 2:
            gen.collection(c, sp, gen.rstates(rng, sp))[0].translate_state_components_to_vector()
        else:
            nodes = [i for i, n in enumerate(c.node_list) if n.get('node_type') == 'optical']
            if nodes and len(note.basis()) <= 130:
                c.get_fock_state_matrix(nodes_to_be_evaluated=[rng.choice(nodes)])
        mon.event('disturbances')


def run_case(rng, mon, idx, tier):
    sp = gen.spec(rng, max_dim=130 if idx % 5 else 300, lengths=(2, 3, 4, 5, 2, 3, 4, 5, 11), ncl=(0, 3))
    kinds = [k for k in KINDS if k != 'custom_fock' or sp['L'] ** sp['nch'] <= 64]
    if sp['L'] ** sp['nch'] > 90:        # these build their matrix by quadratic enumeration
        kinds = [k for k in kinds if k not in ('shift', 'c_shift')]
    ops = [gen.op(rng, sp, kinds) for _ in range(rng.randint(2, 6))]
    states = gen.scaled(rng, gen.rstates(rng, sp, weights=True), mon)
    c, groups = gen.build(sp, ops)
    nodes = [n for g in groups for n in g]
    if rng.random() < 0.5:
        disturb(rng, c, sp, mon)
    col = gen.collection(c, sp, states)
    base = gen.observe(c.evaluate_circuit(col), sp, mon)
    what = 'circuit %s' % ops

    # node by node
    cur = col
    for n in nodes:
        cur = c.evaluate_circuit(cur, [n])
    gen.compare(mon, gen.observe(cur, sp, mon), base, TOL, 'node by node, ' + what)
    mon.event('schedules_compared')
    # consecutive pieces
    cuts = sorted(rng.sample(range(1, len(nodes) + 1), rng.randint(1, len(nodes))))
    cur, start = col, 0
    for cut in cuts + [len(nodes)]:
        if cut > start:
            cur = c.evaluate_circuit(cur, nodes[start:cut])
        start = cut
    gen.compare(mon, gen.observe(cur, sp, mon), base, TOL, 'in pieces %s, ' % cuts + what)
    mon.event('schedules_compared')
    # other use of the circuit in between, then the same evaluation again
    disturb(rng, c, sp, mon)
    again = gen.observe(c.evaluate_circuit(col), sp, mon)
    gen.compare(mon, again, base, 1e-6, 'second evaluation, ' + what)
    mon.event('repeats_compared')
    # explicit complete list
    listed = c.evaluate_circuit(col, list(nodes))
    gen.compare(mon, gen.observe(listed, sp, mon), base, TOL, 'explicit node list, ' + what)
    # other matrix mode
    sp2 = dict(sp, full=not sp['full'])
    c2, _ = gen.build(sp2, ops)
    gen.compare(mon, gen.observe(c2.evaluate_circuit(gen.collection(c2, sp2, states)), sp2, mon), base, TOL,
                'other matrix mode, ' + what)
    mon.event('matrix_modes_compared')
    # one input state at a time, in another order
    order = list(states)
    rng.shuffle(order)
    single = []
    for s in order:
        single += gen.observe(c.evaluate_circuit(gen.collection(c, sp, [s])), sp, mon)
    gen.compare(mon, single, base, TOL, 'one state at a time, ' + what)
    mon.event('schedules_compared')
    # an arbitrary node list equals the circuit with those operations
    pick = [rng.randrange(len(ops)) for _ in range(rng.randint(1, len(ops) + 1))]
    if rng.random() < 0.5:
        pick = list(range(len(ops)))
        rng.shuffle(pick)
    node_list = [n for i in pick for n in groups[i]]
    c3, _ = gen.build(sp, [ops[i] for i in pick])
    # measuring twice into other channels may give two branches one identity; compare as ordered contents then
    a = gen.observe(c.evaluate_circuit(col, node_list), sp, mon)
    b = gen.observe(c3.evaluate_circuit(gen.collection(c3, sp, states)), sp, mon)
    gen.compare(mon, a, b, TOL, 'node list %s of ' % node_list + what)
    mon.event('node_lists_compared')
    # independent of the schedules: the reference model
    want = states
    for op in ops:
        want = ref.step(sp, op, want)
    gen.compare(mon, base, want, TOL, 'reference, ' + what)
    mon.nontrivial(gen.rich(sp, ops, states), tuple(pick))
    mon.sample(dict(spec=sp, ops=[o['kind'] for o in ops], pieces=cuts, node_list=node_list))
