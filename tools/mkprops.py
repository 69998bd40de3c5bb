"""Single source for properties.jsonl and MANIFEST.json (run by hand: python3 tools/mkprops.py)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = 'src/fock_state_circuit/'
CIR, COL, STA, CMP = S + 'circuit.py', S + 'collection_of_states.py', S + 'state.py', S + 'compound_circuit.py'
OPT, CUS, CTL, CLA, MEA = (S + 'nodes/%s_nodes.py' % n for n in ('optical', 'custom', 'controlled', 'classical', 'measurement'))
SPE, SUP, QOP, BRI = (S + 'nodes/%s_nodes.py' % n for n in ('spectral', 'superquantum', 'quantum_operator', 'bridge'))
NOD, OVC = S + 'nodes/nodelist/node_list.py', S + 'nodes/nodelist/optical_values_component_names.py'
QOF = S + 'quantum_operator_functionality/quantum_operators.py'
TSF = S + 'temporal_and_spectral_gate_functionality/'
COLUMN, GROUP, COC = TSF + 'column_of_states.py', TSF + 'interference_group.py', TSF + 'collection_of_state_columns.py'
PRF = S + 'popescu_rohrlich_correlation_functionality/'
PLO, DRA = S + 'visualization/plot.py', S + 'visualization/draw.py'

P = []


def prop(pid, title, statement, over, qtext, why, files, mech, state=(), observe=(), technique='', note=''):
    P.append(dict(id=pid, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                               state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                               observe_at=list(observe), hook_needed=None),
                  technique=technique, note=note))


prop('P01', 'Linear optical elements act as bosonic linear optics on the requested channels',
     'For every circuit of wave plates, phase shifters, swaps, mixers, beam splitters and custom two-channel elements, every input '
     'superposition ends with the amplitudes that the boson transformation of the elements\' 2x2 matrices gives, applied in circuit order to exactly '
     'the channels named (any pair, in the order given). Combinations holding more photons than one channel can carry pass an element unchanged. '
     'The reported transition matrix of the circuit describes the same evolution.',
     ['inputs', 'programs', 'configurations'], 'all circuits of linear elements, channel pairs, angles, Fock lengths and superpositions',
     'The tests evaluate some thirty fixed circuits, mostly neighbouring channels and one or two photons; channel order, channel pairs away from (0,1), '
     'three or more photons and truncation are sampled at single points.',
     [CIR, OPT, NOD, CUS],
     [('transition matrix of a two-channel element', CIR + ' __generate_single_node_fock_matrix_from_optical_matrix'),
      ('channel re-ordering', NOD + ' _translate_channels_numbers_to_tensor_list'),
      ('element matrices', OPT + ' _generate_generic_optical_matrix')],
     [('optical components', 'amplitude per photon configuration', STA)], ['evaluate_circuit results after every element', 'get_fock_state_matrix'],
     'reference-model monitor on the trace of amplitudes after every element (independent double-precision boson algebra)',
     'amplitude tolerance 1e-4 (single-precision matrices); Fock length up to 11, up to 4 channels')

prop('P02', 'Linear optics conserves norm, inner products and photon number',
     'Evaluating any circuit of linear optical elements built from unitary 2x2 matrices, including classically controlled ones, conserves for every input '
     'state the total probability, the distribution of the total photon number, and the inner product between any two inputs that see the same elements. '
     'It leaves weights, classical channels and measurement history untouched.',
     ['inputs', 'programs', 'configurations'], 'all circuits of unitary elements, all input pairs, all Fock lengths (also near the truncation limit)',
     'Tests compare a few final amplitudes and never monitor conservation laws across long random circuits or near the photon limit.',
     [CIR, OPT, CTL], [('matrix application', CIR + ' __apply_node_or_nodes_to_collection'), ('truncation kept unitary', CIR + ' make_unitary')],
     [('optical components', 'amplitude per photon configuration', STA)], ['states before and after every element'],
     'conservation-law monitors over the event trace', 'tolerance 2e-4 on probabilities')

prop('P03', 'The result does not depend on how a circuit is evaluated',
     'Evaluating a circuit at once, node by node, in consecutive pieces, through an explicit list of nodes, with full or reduced transition matrices, with the '
     'input states together or one by one, and before or after any other use of the same circuit gives the same mixture of states. An explicit list of '
     'nodes is evaluated completely and in the order of the list, and repeating an evaluation reproduces it.',
     ['inputs', 'programs', 'histories', 'configurations'], 'all circuits over optical, custom, controlled, classical and measurement nodes, all splits and all histories of earlier calls',
     'Tests evaluate each circuit once and in one way; fused elements, matrix reduction by photon number and caches are never compared with the plain path.',
     [CIR, COL, NOD, OVC], [('grouping consecutive optical nodes', CIR + ' evaluate_circuit'), ('grouping by photon number', COL + ' _group_states_together_by_photon_number'),
                       ('lazily filled name tables', OVC)],
     [('node list', 'nodes of the circuit', NOD), ('name tables', 'component name <-> photon numbers', OVC)], ['evaluate_circuit results of differential runs'],
     'differential monitor: several evaluation schedules of one program compared event by event', 'tolerance 2e-4; thresholds small enough not to bite')

prop('P04', 'Evaluation never changes its input, and copies are independent',
     'Evaluating a circuit leaves the collection that is passed in, its states and the circuit exactly as they were, and a result or a copy shares no state with it: changing one '
     'of them afterwards (amplitudes, classical values, weights, measurement history) never shows in another. This holds for every kind of node and for copies '
     'of states and collections.',
     ['inputs', 'programs', 'histories'], 'all circuits, input collections and later modifications of input, output or copy',
     'Tests compare results only; they never look at the input again or modify a result and look at the other objects.',
     [CIR, COL, STA, CUS, CLA], [('copying states', STA + ' copy'), ('copying collections', COL + ' copy'), ('classical nodes', CIR + ' evaluate_circuit')],
     [('collection', 'states by identifier', COL)], ['fingerprints of all objects before and after'],
     'aliasing monitor: deep fingerprints of every live object around each call and each later mutation', 'public attributes only')

prop('P05', 'Measurement follows the Born rule and collapses the state',
     'Measuring any optical channels splits each state into exactly one branch per possible outcome, with weight multiplied by the outcome probability, a normalised '
     'collapsed state whose amplitudes keep their ratios, the outcome in the named classical channels and one new history entry (classical values and probability). The branch weights add up to the weight of the '
     'measured state, and measuring the same channels again repeats the outcome with certainty.',
     ['inputs', 'programs', 'configurations'], 'all states, mixtures, sets and orders of measured channels, repeated measurements',
     'Tests measure a few fixed states; channel order, partial measurements of superpositions, mixtures and repeated measurements are not crossed.',
     [CIR, MEA], [('measurement', CIR + ' _perform_measurement'), ('identifiers of branches', CIR + ' __next_state_marker')],
     [('cumulative probability', 'weight of the branch', STA), ('measurement results', 'history', STA)], ['collections before and after every measurement'],
     'branch-by-branch monitor against an executable Born-rule model plus conservation of weight', 'weight tolerance 1e-4')

prop('P06', 'Classical channels and measurement history record exactly what happened',
     'Setting classical channels or applying a classical function changes exactly the classical values it should, per state, and nothing optical. The measurement history of a state '
     'lists its measurements in order, each with the classical values at that time and the probability of that outcome, and later changes of the classical channels never alter entries already written.',
     ['inputs', 'programs', 'histories'], 'all sequences of classical writes, classical functions, measurements and optical elements',
     'Tests check one write or one measurement; history entries are not followed through later operations.',
     [CLA, CIR, STA], [('classical nodes', CIR + ' evaluate_circuit'), ('set values', CLA + ' set_classical_channels')],
     [('classical channel values', 'current values', STA), ('measurement results', 'history', STA)], ['history and classical values after every node'],
     'append-only history monitor and sequential model of the classical channels over the event trace', 'functions without hidden state')

prop('P07', 'Classically controlled elements use the values of each state at that moment',
     'A phase shifter, wave plate (also from its Hamiltonian) or time delay controlled by classical channels acts on every state of the mixture exactly as the fixed element with the angles that this state\'s classical '
     'channels hold when the element is reached, whatever the other states hold and whatever was written before or is written later. Weights, classical values and '
     'history stay as they are.',
     ['inputs', 'programs', 'histories'], 'all mixtures with different classical values, feed-forward after measurements, channel assignments',
     'Tests run one or two controlled plates with hand-set values; mixtures whose branches need different angles are not explored.',
     [CTL, CIR], [('control values per state', CIR + ' evaluate_circuit (controlled)'), ('controlled nodes', CTL)],
     [('classical channel values', 'control values', STA)], ['every state before and after every controlled element'],
     'per-state reference monitor of controlled elements, differential with the fixed element', 'angles given in radians as numbers')

prop('P08', 'The notation of state names changes names only',
     'Two circuits that differ only in the direction in which component names are written give identical physics: the same amplitudes, weights, classical '
     'values, histories, density matrices, reductions, histograms and correlations once names are translated. Names with several digits per channel are read and '
     'written per channel.',
     ['inputs', 'programs', 'configurations'], 'all circuits, collection operations and reports, in both notations and with one or more digits per channel',
     'Reversed notation is used in a handful of tests and never compared with the regular one.',
     [NOD, OVC, COL, STA, PLO], [('name tables', OVC), ('names in reshape operations', COL + ' reduce, extend, adjust_length_of_fock_state'), ('names in reports', PLO)],
     [('notation flag', 'direction of names', NOD)], ['results of twin runs'], 'twin-run differential monitor with translated names', 'both notations driven by one program')

prop('P09', 'Component names and photon numbers are a fixed one-to-one correspondence',
     'For every circuit the basis lists every photon configuration exactly once in the standard order (first channel running fastest), each name has a fixed number of digits per channel, and names, photon '
     'numbers and positions determine each other. The default collection holds exactly one state per basis element. None of this depends on which names were looked up before.',
     ['configurations', 'histories', 'inputs'], 'all Fock lengths (also above ten), channel numbers, notations and orders of earlier look-ups',
     'Tests print a few bases; the tables are filled lazily and their behaviour after arbitrary look-ups is not exercised.',
     [OVC, NOD, COL, STA], [('lazily filled tables', OVC), ('default collection', COL + ' initialize_to_default'), ('vectors', STA + ' translate_state_components_to_vector')],
     [('name tables', 'component name <-> photon numbers', OVC)], ['basis(), names, vectors'], 'bijection monitor over random look-up histories', 'bases up to a few thousand elements')

prop('P10', 'Reducing a collection is a partial trace',
     'Removing optical channels from a collection leaves, for every initial state, the density matrix that the partial trace over those channels gives (kept channels in the order listed), '
     'with total weight unchanged. Removing classical channels keeps the values of the listed ones, and nothing else changes.',
     ['inputs', 'configurations'], 'all mixtures of superpositions, sets of kept channels, notations',
     'Tests reduce three or four fixed collections and look at names; the reduced density matrix is not compared with a partial trace.',
     [COL], [('reduction', COL + ' reduce')], [('collection', 'states by identifier', COL)], ['collections before and after'],
     'density-matrix monitor (independent partial trace)', 'tolerance 2e-4')

prop('P11', 'Extending and rescaling a collection keeps the physical content',
     'Extending a collection with channels puts the given (or empty) mixture in the new channels and leaves the original state as a tensor factor with the same weights, classical '
     'values first. Changing the Fock length keeps every state that fits, its components under their names in the new format, with amplitudes, weight, classical values and history. Extending and then removing the added channels restores the original density matrix.',
     ['inputs', 'configurations'], 'all collections, extra channels, statistical mixtures, Fock lengths, notations',
     'Tests extend single states; mixtures, notations and round trips are not covered.',
     [COL], [('extension', COL + ' extend'), ('Fock length', COL + ' adjust_length_of_fock_state')], [('collection', 'states by identifier', COL)],
     ['collections before and after'], 'tensor-product and round-trip monitors', 'tolerance 2e-4')

prop('P12', 'Density matrices describe the mixture and survive clean-up',
     'The density matrix of every initial state is the weighted sum of the projectors on its states, hermitian and positive, with the reported trace and trace of the square. Cleaning up a collection '
     'leaves for each initial state the same density matrix and merges only states with the same initial state and the same optical components, adding up their weights.',
     ['inputs', 'histories'], 'all mixtures, also with duplicated states and phases',
     'Tests look at the traces of a few matrices and the number of states after clean-up.',
     [COL], [('density matrix', COL + ' density_matrix'), ('clean-up', COL + ' clean_up')], [('collection', 'states by identifier', COL)], ['density_matrix, clean_up'],
     'density-matrix monitor against an independent computation', 'tolerance 1e-3; density matrix accepted up to transposition')

prop('P13', 'A collection stores, finds, filters and mixes exactly its states',
     'Adding, overwriting, finding, deleting and filtering states, loading from a dictionary and making a statistical mixture affect exactly the states asked for; no state is lost, duplicated or changed, and identifiers stay unique. '
     'Filters keep precisely the states whose identifier, initial state or classical values match.',
     ['histories', 'inputs'], 'all sequences of bookkeeping operations on collections of any size',
     'Tests perform one operation on small collections, so that collisions of generated identifiers never happen.',
     [COL], [('bookkeeping', COL)], [('collection', 'states by identifier', COL)], ['every call and its result'],
     'sequential-model monitor over operation histories (ordered dictionary)', 'single-threaded histories')

prop('P14', 'Shift, controlled-shift, coupling and custom matrices do what they say',
     'A shift adds its amount to the photon number of each target channel modulo the Fock length, a controlled shift adds the control channel\'s number to the target channel for each pair in the given order, and the direct variants '
     'agree with the matrix variants; amplitudes, weights, classical values and history are carried along. A coupling of strength c shifts a basis state with probability c and leaves it with probability 1-c, and a custom matrix multiplies the amplitudes in standard basis order.',
     ['inputs', 'configurations', 'programs'], 'all targets, controls, amounts, orders of pairs and superpositions',
     'Tests use one pair or one amount per node; several pairs that interact, and agreement of the variants, are not covered.',
     [CUS, CIR], [('shift', CUS + ' shift, shift_direct'), ('controlled shift', CUS + ' c_shift, c_shift_direct'), ('coupling', CUS + ' channel_coupling')],
     [('optical components', 'amplitude per photon configuration', STA)], ['states before and after each node'],
     'permutation-model monitor and differential monitor between variants', 'coupling decided for basis-state inputs and end points')

prop('P15', 'Hamiltonian gates evolve states by the exponential of their operators',
     'A gate built from creation and annihilation operators transforms every state that stays within the photon limit as the matrix exponential of the given combination, on the channels named and in the order given. '
     'The Hamiltonian wave plate agrees with the ordinary wave plate, and its classically controlled form uses each state\'s own values.',
     ['inputs', 'configurations', 'programs'], 'all operators, channel choices, states within the photon limit',
     'Tests compare a handful of operators and angles on adjacent channels.',
     [QOF, QOP], [('exponential', QOF + ' QuantumOperator'), ('nodes', QOP)], [('optical components', 'amplitude per photon configuration', STA)],
     ['states before and after each node'], 'reference monitor with independently exponentiated operators; differential with wave plates', 'tolerance 5e-3 because small components are dropped')

prop('P16', 'Bridged and compound circuits equal running the parts one after the other',
     'A bridge hands every state to the next circuit with weight, history and shared channels intact, extra channels starting empty and missing ones traced out; a compound circuit gives the same result as evaluating its circuits one by one. '
     'Refreshing a compound circuit or evaluating it again gives the same result, and evaluating it leaves its circuits usable on their own.',
     ['programs', 'histories', 'configurations'], 'all chains of circuits of equal or different size, repeated evaluations and refreshes',
     'Tests run two bridges and one compound circuit, each once.',
     [BRI, CMP, CIR], [('bridge', CIR + ' evaluate_circuit (bridge)'), ('compound', CMP)], [('list of circuits', 'order of the parts', CMP)],
     ['results of compound and manual evaluation'], 'differential monitor of compound against stepwise evaluation', 'sizes chosen so that states fit')

prop('P17', 'Full time delay makes photons distinguishable as their overlap says',
     'After a delay of photons in given channels with given bandwidths, measured outcome probabilities add up to one, reduce to ordinary interference for zero delay and to distinguishable particles for long delay, and in between '
     'follow the squared overlap of the wave packets. Delaying all photons equally, or opposite delays in succession, changes nothing, and photon number is conserved.',
     ['inputs', 'programs', 'configurations'], 'all delays, bandwidths, channels and linear circuits after the delay',
     'Tests look at one Hong-Ou-Mandel dip and some fixed delays.',
     [SPE] + [TSF + f for f in ('column_of_states.py', 'interference_group.py', 'collection_of_state_columns.py', 'temporal_functions.py')],
     [('interference groups', TSF + 'interference_group.py'), ('delay', SPE + ' time_delay_full')], [('photon information', 'delay and bandwidth per photon', TSF)],
     ['histograms of outcomes, measured collections'], 'reference monitor of two-photon interference and metamorphic monitors', 'one to three photons')

prop('P18', 'The quick time-delay model conserves probability and keeps groups apart',
     'A quick time delay splits each state into an undelayed and a delayed part whose weights add up to the weight of the original, with the share given by the wave-packet overlap; zero delay changes nothing and a long delay removes all interference between delayed and undelayed photons. '
     'Outcome probabilities add up to one. This holds for circuits with one quick delay, as documented.',
     ['inputs', 'programs', 'configurations'], 'all delays, bandwidths, channels and later linear circuits',
     'Tests look at a few fixed delays.',
     [SPE, TSF + 'interference_group.py'], [('delay', SPE + ' time_delay')], [('photon information', 'interference groups', TSF)], ['histograms of outcomes'],
     'reference and conservation monitors on outcome probabilities', 'one delay')

prop('P19', 'Measuring photon-resolved states gives the same statistics as reporting them',
     'Measuring states that carry spectral information yields outcome branches whose weights add up to one, agree with the outcome probabilities reported for the unmeasured states, and carry the outcome in the classical channels with one '
     'history entry per measurement. Channels left unmeasured stay correlated with the outcome as in the unmeasured statistics.',
     ['inputs', 'programs', 'histories'], 'all delays, measured channel sets and orders, several measurements',
     'Tests measure after one delay in fixed channels.',
     [SPE, TSF + 'interference_group.py', CIR], [('photon-resolved measurement', SPE + ' perform_measurement_photon_resolved')], [('measurement results', 'history', STA)],
     ['collections before and after measurement, histograms'], 'conservation and differential monitors between report and measurement', 'one to three photons')

prop('P20', 'Popescu-Rohrlich pairs have the correlations asked for, without signalling',
     'For photon pairs created with a given correlation strength and measured behind wave plates, outcome probabilities of each pair add up to one, every single side stays unbiased whatever the other side does, and the pair correlation is '
     'the documented power law of the quantum correlation of the two measurement settings, which for strength one is that of ordinary entangled photons. Several pairs are independent of each other.',
     ['inputs', 'programs', 'configurations'], 'all wave plate settings on both sides, strengths, channel assignments, numbers of pairs',
     'Tests check a few settings and compute the CHSH value at standard angles.',
     [SUP, PRF + 'popescu_rohrlich_correlations.py', PRF + 'popescu_rohrlich_photon_pair_amplitude_functionality.py'],
     [('pair correlation', PRF), ('measurement', SUP + ' perform_measurement_pr_correlation')], [('photon pairs', 'correlated pairs', PRF)], ['measured collections'],
     'no-signalling and correlation monitors over measured mixtures', 'one or two pairs, every photon in channels of its own')

prop('P21', 'Histograms and correlations report the mixture they are given',
     'The outcome histogram of a collection lists for every initial state each outcome once with the total probability of the states showing it, in the chosen classical channels; the probabilities add up to the weight of the initial state. '
     'Reported correlations of channel pairs equal the probability of agreement minus that of disagreement. Reporting changes nothing.',
     ['inputs', 'configurations'], 'all mixtures, initial states, channel selections, notations',
     'Tests compare images or a few dictionaries.',
     [PLO], [('histogram', PLO + ' plot'), ('correlations', PLO + ' plot_correlations')], [('collection', 'states by identifier', COL)], ['returned histograms and correlations'],
     'reference monitor of outcome statistics', 'probabilities reported as numbers')

prop('P22', 'State algebra obeys its laws',
     'Inner and outer products and tensor products of states follow the rules of vectors of amplitudes (conjugate symmetry, norm, multiplicativity, channel order), vectors and states convert back and forth without loss, and components given as a list with repetitions add up. '
     'Probabilities of components always equal the squared magnitude of their amplitudes.',
     ['inputs', 'configurations'], 'all pairs of states, notations, channel numbers',
     'Tests compute three products.',
     [STA], [('products', STA + ' inner, outer, tensor'), ('conversion', STA + ' translate_state_components_to_vector')], [('optical components', 'amplitudes', STA)],
     ['results of the operations'], 'algebraic-law monitors', 'tolerance 1e-6')

prop('P23', 'Drawing and printing are pure observers',
     'Drawing a circuit, by station or as part of a compound, and printing circuits, collections or states works for every valid circuit and changes neither circuits nor collections nor any later result. A drawing shows every '
     'node at least once.',
     ['programs', 'histories', 'configurations'], 'all circuits over all node types, stations, settings, before and after evaluation',
     'Tests compare drawings of a few circuits and never evaluate afterwards.',
     [DRA, STA, COL], [('drawing', DRA), ('printing', STA + ' __str__')], [('node list', 'nodes of the circuit', NOD)], ['figures and fingerprints around the call'],
     'observer-effect monitor: fingerprints and results around drawing calls', 'matplotlib non-interactive backend')

prop('P24', 'Requests that make no sense are refused and change nothing',
     'Asking for an element, measurement, node list, state or collection that is documented as invalid (identical or missing channels, wrong lengths, unknown names, fractions not adding up, too few channels) raises an error instead of being accepted, '
     'and leaves circuit, state and collection as they were.',
     ['inputs', 'histories'], 'all documented kinds of invalid requests at any point of a history',
     'Tests try a handful of invalid calls.',
     [CUS, OPT, MEA, CTL, CLA, CIR, STA, COL], [('input checks', 'constructors and node methods')], [('node list', 'nodes of the circuit', NOD)], ['raised errors and fingerprints'],
     'rejection monitor with fingerprints around every refused call', 'documented conditions only')
prop('P25', 'A circuit is independent of the objects it was built from',
     'Adding nodes leaves the lists, arrays and dictionaries handed over unchanged. The circuit does what was asked when the node was added (a compound circuit what its circuits were when it was last refreshed), whatever the caller does with these objects afterwards, '
     'also when the same object is used for several nodes or several circuits. An argument that is left out means its documented default (the first channels, no phase, no shift), in every call.',
     ['inputs', 'histories'], 'all nodes with list, array or dictionary arguments, in-place changes and re-use at any time after the node was added',
     'Tests hand fresh literals to every call.',
     [CUS, OPT, MEA, CTL, CLA, CIR, NOD], [('node methods store their arguments', NOD + ' _update_list_of_nodes')], [('node list', 'nodes of the circuit', NOD)], ['results before and after the caller changes the objects'],
     'differential monitor: circuit from re-used and afterwards changed objects against circuit from fresh ones', 'parameters of generic functions belong to those functions')


prop('P26', 'Rounding to the threshold drops what is below it and nothing else',
     'After every optical element the components of a state are those of the exact result, except the ones whose probability is below the threshold of its collection. '
     'Nothing is rescaled, and measurements keep every outcome and component above the threshold. A state of which nothing is left can still be evaluated.',
     ['inputs', 'configurations'], 'all thresholds up to 0.1 and the default, states with components of any size, optical elements, matrices and Hamiltonian gates, also behind bridges and in compound circuits',
     'Tests use states whose components are far above the threshold.',
     [CIR, STA, COL, CMP], [('rounding', STA + ' translate_state_vector_to_components'), ('evaluation', CIR + ' evaluate_circuit')], [('optical components', 'amplitude per photon configuration', STA)], ['states before and after every node'],
     'step monitor against exact linear algebra, with a band of one rounding error around the threshold', 'one rounding per node; outcomes below the threshold are free')


prop('P27', 'Printed states and collections tell what they hold',
     'Printing a state gives its name, probability, classical values, measurement results and every optical component with amplitude and probability, to two decimals. '
     'Printing a collection does this for all its states, with only the last or all measurement results (last one first) as its setting asks, whenever that was set. Copies, reduced and extended collections keep the setting.',
     ['inputs', 'histories', 'configurations'], 'all collections, however they were made, with either setting chosen at any time',
     'Tests print a few fixed states.',
     [STA, COL, CIR, CMP], [('printing', STA + ' __str__, print_optical_components'), ('printing collections', COL + ' __str__')], [('print_only_last_measurement', 'which results are printed', COL)], ['printed text and the state it describes'],
     'read-back monitor: numbers and names are parsed from the printed text and compared with the state', 'wording and layout are free')


prop('P28', 'Evaluations do not influence each other',
     'Evaluating a circuit gives the same result whatever other circuits were built or evaluated before, in between, inside one of its nodes or at the same time in other threads, also when they have nearly the same '
     'parameters or share the circuit or the input. Evaluations and requests that failed leave nothing behind.',
     ['inputs', 'schedules', 'histories', 'fault_sequences'], 'all groups of circuits over all node types, all interleavings of their evaluation, threads with a shared circuit or input, failures in the middle of an evaluation',
     'Tests evaluate one circuit after the other.',
     [CIR, COL, NOD, OVC], [('evaluation', CIR + ' evaluate_circuit'), ('lazily filled tables', OVC)], [('node list', 'nodes of the circuit', NOD), ('name tables', 'shared by circuits and collections', OVC)],
     ['results of evaluations run together and alone'],
     'stress with injected thread switches, re-entrant calls and failures; bitwise comparison with the evaluation done alone', 'drawing is not done in threads; identifiers are free')


prop('P29', 'States taken apart into columns and photons can be put together again',
     'A state put in a ColumnOfStates or InterferenceGroup, or a collection put in a CollectionOfStateColumns, can be split into columns with one component each and into single photons, copied, added to, printed and '
     'turned back into a state or collection with the same components, amplitudes, probability, classical values, history and auxiliary information. The columns, components, photons, photon information, factors and '
     'identifiers they report are those of the states put in, the probabilities of a group are those of the state, and only states without superposition are taken apart into photons.',
     ['inputs', 'histories'], 'all states and collections, also collections with delayed photons, and the documented operations on their columns in any order',
     'Tests take a few states apart; the number of components, photons, channels and marks on them is unbounded.',
     [COLUMN, GROUP, COC], [('columns', COLUMN + ' ColumnOfStates'), ('groups', GROUP + ' InterferenceGroup'), ('collection of columns', COC + ' CollectionOfStateColumns')],
     [('columns', 'states of a column with their marks', COLUMN), ('groups', 'columns by identifier', GROUP)],
     ['content of the regenerated states, reported columns, photons and probabilities'],
     'round trips compared with the states put in; values of columns and photons computed from the occupation numbers', 'joined columns are claimed where they have the same group; all_states_single_optical_component is not claimed for amplitudes other than 1')


def main():
    built = sorted(f[:-3].upper() for f in os.listdir(os.path.join(HERE, 'mon', 'props')) if f.startswith('p'))
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in P:
            f.write(json.dumps({k: v for k, v in p.items() if k not in ('technique', 'note')}) + '\n')
    for p in P:
        n = p['statement'].count('. ') + 1
        assert n <= 3, (p['id'], n)
        assert len(p['title']) <= 80, p['id']
    man = dict(version=1, setup_cmd='bash setup.sh', checks=[], not_applicable=[])
    for p in P:
        if p['id'] in built:
            man['checks'].append(dict(
                property=p['id'], quick_cmd='bash check.sh %s quick' % p['id'], thorough_cmd='bash check.sh %s thorough' % p['id'],
                evidence_file='evidence/%s.json' % p['id'], technique='runtime monitoring: ' + p['technique'], level='exploration',
                level_note='held on the generated executions only; ' + p['note']))
        else:
            man['not_applicable'].append(dict(property=p['id'], reason='monitor not built yet'))
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(man, f, indent=1)
        f.write('\n')


main()
