#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the file stays valid JSON lines)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                     observe_at=list(observe), hook_needed=None)))

p("C01", "The peephole optimizer never changes what a program computes",
  "For every sequence of commands, buffer size and flush pattern, the commands that leave the local optimizer implement exactly the same operation as those that entered it: same unitary between measurements, same controls with their required values, same measurements, allocations and deallocations on the same qubits (only a qubit that is released untouched may vanish together with its allocation), and commands carrying different tags are never merged or cancelled. Commands sharing a qubit keep their order unless they were merged or cancelled as the same-qubit neighbours they are. After a flush (or after the last qubit of a group is deallocated) nothing is held back, and nothing is ever sent twice.",
  ["programs", "configurations", "histories"],
  "All command sequences up to depth 4-5 over a 20-letter alphabet on 2-3 qubits (self-inverse, mergeable, identity, controlled, negatively controlled, tagged, operator-valued gates, measurement, late (de)allocation, mid-sequence flush), for each buffer size 1..5.",
  "The tests feed a handful of fixed short sequences; merging depends on the interleaving of per-qubit buffers, on the buffer size and on which neighbours have already left.",
  ["projectq/cengines/_optimize.py", "projectq/ops/_command.py", "projectq/ops/_basics.py", "projectq/ops/_metagates.py"],
  [("per-qubit pipelines and merge/cancel loop", "projectq/cengines/_optimize.py"), ("command equality, inverse and merge", "projectq/ops/_command.py")],
  [("per-qubit command lists", "commands not yet sent", "projectq/cengines/_optimize.py")], ["the next engine / backend's receive()"])

p("C02", "Control, dagger, compute/uncompute and loop blocks mean what they say",
  "A program built from arbitrarily nested control, dagger, compute, uncompute, custom-uncompute and loop blocks reaches the backend as a circuit with the block's mathematical meaning: control makes the body conditional on the stated control values, dagger reverses and inverts it, uncompute inverts exactly the computed section (only the action in between needs controls), a loop with count n equals n repetitions (n = 0 nothing) whether or not the backend supports loop tags. Helper qubits allocated inside blocks are allocated and released the right number of times and stay consistent, and after each block the engine pipeline is exactly as before. Misuse (uncompute without compute, non-positive use after a block, leaking or deleting qubits across a dagger or loop boundary) is rejected with an error.",
  ["programs", "configurations"],
  "All block programs up to a nesting/size bound over 2 system qubits + 1 control qubit with every control state, loop counts 0..3, local ancillas in compute/loop/dagger sections, on tag-aware and tag-unaware backends.",
  "Tests check single blocks with fixed bodies against literal command lists; interactions of nested blocks, ancilla bookkeeping and control states are combinatorial.",
  ["projectq/meta/_control.py", "projectq/meta/_dagger.py", "projectq/meta/_compute.py", "projectq/meta/_loop.py", "projectq/meta/_util.py"],
  [("temporary engines inserted after the main engine", "projectq/meta/_util.py"), ("command recording and replay", "projectq/meta/_compute.py, _dagger.py, _loop.py")],
  [], ["the backend's receive()", "MainEngine.next_engine chain"])

p("C03", "Control qubits and their required values are never lost or altered",
  "Whatever way a command is produced - control blocks (nested, any control-state notation), controlled-gate objects, copying, inverting, merging, tagging, mapping, replaying - it keeps exactly the set of control qubits with the required value of each, and two commands compare equal only if gates, targets, controls, control values and tags all agree. Contradictory requirements for the same qubit and malformed control states are rejected. Backends that cannot express a 0-control never silently receive it through the compilers that declare it unsupported.",
  ["programs", "inputs", "configurations"],
  "All commands over 4 qubits with 0-3 controls, all control states in int/str/enum notation and all construction routes; all copy/inverse/merge/compare operations on all pairs; all nestings of control blocks up to depth 3.",
  "Negative controls are a late addition; the tests only cover a few constructions and never copies/merges/inverses of negatively controlled commands.",
  ["projectq/ops/_command.py", "projectq/meta/_control.py", "projectq/ops/_metagates.py", "projectq/setups/decompositions/controlstate.py"],
  [("canonical control representation", "projectq/ops/_command.py"), ("control-state canonicalisation", "projectq/meta/_control.py")],
  [("control values", "required value per control qubit", "projectq/ops/_command.py")], ["backend receive()", "Command public attributes"])

p("C04", "Every qubit is allocated once, released once, and never usable after",
  "For every history of allocating, using, deleting, dropping and flushing qubits (including registers, slices, helper qubits in blocks and engine shutdown), each qubit has an id never reused for another live qubit, reaches the backend with exactly one allocation before any use and at most one release after its last use - exactly one once it is dead or the engine has been flushed with deallocation. The engine's set of live qubits contains exactly the qubits the user still holds, dropped registers release their qubits, a deleted qubit keeps no id and cannot be used on the simulators or released again, and measurement results are only readable when a result exists. Qubits of different engines are never mixed in one gate's targets. Ids, live qubits and dirty-qubit information stay consistent after a command is refused.",
  ["histories", "programs"],
  "All histories up to depth 4-5 (thorough 7) over allocate qubit/qureg, dirty ancilla, gate, measure, delete, drop reference, read, flush, flush-with-deallocate, slice/concatenate registers; with and without optimizer/replacer/mapper in the chain.",
  "Lifetime bugs need particular interleavings of references, deletions and flushes.",
  ["projectq/types/_qubit.py", "projectq/cengines/_basics.py", "projectq/cengines/_main.py", "projectq/meta/_dirtyqubit.py"],
  [("allocation/deallocation protocol", "projectq/cengines/_basics.py"), ("qubit finaliser", "projectq/types/_qubit.py")],
  [("live qubit set", "qubits handed to the user", "projectq/cengines/_main.py")], ["backend receive()", "MainEngine.active_qubits"])

p("C05", "Every decomposition rule implements the gate it replaces",
  "For every registered decomposition rule and every command the rule claims to recognise, the circuit it emits acts on the command's qubits exactly like the original command - for the same control qubits, every target ordering, and every rotation angle - up to a global phase that never depends on a control. Negatively controlled commands are first rewritten by the control-state rule, which keeps their meaning. Helper qubits it allocates are returned to |0> and released, and the emitted commands only touch the command's own qubits and those helpers. Replacing until only a target gate set remains terminates with the same meaning.",
  ["inputs", "configurations", "programs"],
  "Every rule in every shipped rule module x every gate class with an angle grid (including special angles 0, pi multiples, 4pi) x 0-3 controls x control states x qubit orders; all basis states and their phases.",
  "The tests sample a few angles and one qubit order per rule; controlled and negatively controlled variants, special angles and rule compositions are mostly untested.",
  ["projectq/setups/decompositions/", "projectq/cengines/_replacer/"],
  [("recognise/decompose pairs", "projectq/setups/decompositions/*.py"), ("rule set lookup", "projectq/cengines/_replacer/_decomposition_rule_set.py")],
  [], ["commands emitted by the rule"])

p("C06", "Compiled programs only use what the target offers and keep their meaning",
  "For every shipped compiler setup and every program over the gates it accepts, the commands that reach the backend all belong to the gate set and connectivity the setup promises (allowed gates, number of controls, only positive controls, nearest neighbours where stated) and implement the same operation as the source program, with measurement results reported for the right qubits. A program the setup cannot compile is refused with an error instead of being passed on. Malformed gate sets, unknown devices and devices that are not online are refused.",
  ["programs", "configurations"],
  "All programs up to depth 2-3 over a wide gate alphabet (1-3 qubit gates, controls, negative controls, math gates, QFT, measurement) x all setups (default, restricted gate set with option combinations, linear, grid, trapped ion, IBM, AQT, IonQ, AWS).",
  "Setup tests compile one or two sample circuits for one option combination and mostly check gate names, not meaning.",
  ["projectq/setups/", "projectq/cengines/_replacer/", "projectq/cengines/_tagremover.py", "projectq/cengines/_basicmapper.py"],
  [("engine lists and filters", "projectq/setups/*.py"), ("recursive replacement", "projectq/cengines/_replacer/_replacer.py")],
  [], ["backend receive()"])

p("C07", "Mapping to hardware keeps the program and respects connectivity",
  "For every program of one- and two-qubit gates, measurements, allocations and releases that fits the device, each mapper (line, ring, grid, 5-qubit device for one circuit, manual, bounded) emits only two-qubit gates between connected locations and an operation equal to the source program under the location map it reports, with each location held by at most one live qubit, every location allocated before use and released when its qubit is. The map reported to the user is always the true location of each live qubit, qubits that end their life free their location for later ones, and programs that need more qubits than the device has (for the bounded allocator and the 5-qubit device: within one circuit) are refused. Swaps returned for a requested rearrangement realise exactly that rearrangement using adjacent swaps.",
  ["programs", "configurations", "histories"],
  "All programs up to depth 4-5 over allocations, all directed CNOT pairs, X/Rz, measure, deallocate, flush on lines, rings and grids of 2-6 sites, storage sizes 1..4; every pair of partial maps for swap routing.",
  "Tests run few random permutations; routing with partial maps, deallocation and re-allocation, and small storage is a large space.",
  ["projectq/cengines/_linearmapper.py", "projectq/cengines/_twodmapper.py", "projectq/cengines/_ibm5qubitmapper.py", "projectq/cengines/_manualmapper.py", "projectq/cengines/_basicmapper.py", "projectq/cengines/_swapandcnotflipper.py"],
  [("swap routing", "projectq/cengines/_linearmapper.py, _twodmapper.py"), ("command remapping", "projectq/cengines/_basicmapper.py")],
  [("current mapping", "logical id -> location", "projectq/cengines/_basicmapper.py")], ["backend receive()", "mapper.current_mapping"])

p("C08", "The simulator applies every gate exactly, whatever the qubit layout",
  "For every sequence of supported gates with any number of control qubits, on any ordering and spacing of the qubits in memory, interleaved with allocation and release, the full simulator's state equals the mathematically exact state, with gate fusion on or off, and independently of the compiled kernel variant (vectorised or plain). Amplitudes, the state dictionary and qubit positions it reports are consistent with each other and normalised. Requests it cannot honour (gates that are too large or do not fit their qubits, allocating an id twice, releasing a qubit in superposition, state vectors of the wrong size or for the wrong qubits) are reported as errors and leave the state intact.",
  ["programs", "inputs", "configurations", "histories"],
  "All target tuples of 1-5 distinct qubits out of n<=6(7) with all control subsets and generic random-free matrices of full support; all gate sequences up to depth 3-4 over fused and non-fused modes; all alloc/dealloc orders.",
  "Tests apply a few gates in a fixed layout; kernels are specialised per position order and control mask.",
  ["projectq/backends/_sim/_cppkernels/", "projectq/backends/_sim/_cppsim.cpp", "projectq/backends/_sim/_simulator.py"],
  [("k-qubit kernels", "projectq/backends/_sim/_cppkernels/{intrin,nointrin}/kernel*.hpp"), ("gate fusion", "projectq/backends/_sim/_cppkernels/fusion.hpp")],
  [("state vector and qubit map", "amplitudes", "projectq/backends/_sim/_cppkernels/simulator.hpp")], ["Simulator.cheat(), get_amplitude()"])

p("C09", "Measurement, collapse and probability queries obey the Born rule",
  "For every reachable state and every group of qubits in any order, reported probabilities are the exact Born probabilities, amplitudes are the exact amplitudes, an outcome of probability zero is never measured or collapsed to (collapse is refused), and after measuring or collapsing the state is exactly the normalised projection on the reported outcome and re-measuring repeats it. Setting the state then reading it back returns it, expectation values and operator application equal their mathematical definition, and each measurement outcome occurs for exactly the share of the random source the Born rule gives it. Queries on unknown or incomplete qubit lists are refused.",
  ["inputs", "programs", "histories"],
  "All states from a catalogue (all basis, uniform, GHZ/W, asymmetric superpositions) on n<=4 qubits x every ordered subset of qubits x every bit string; all measure/collapse histories up to depth 3; measurement outcomes over a sweep of seeds.",
  "Tests query fixed qubit orders on a couple of states.",
  ["projectq/backends/_sim/_cppkernels/simulator.hpp", "projectq/backends/_sim/_simulator.py", "projectq/backends/_sim/_pysim.py"],
  [("measurement/collapse", "projectq/backends/_sim/_cppkernels/simulator.hpp")], [], ["Simulator public queries"])

p("C10", "The pure-Python fallback simulator behaves like the compiled one",
  "Every operation offered by the compiled simulator core - gates, controlled gates, math emulation, operators, time evolution, measurement, collapse, amplitudes, probabilities, state setting - has in the pure-Python core the same effect and the same refusals on every history. Users cannot tell which one is installed except by speed.",
  ["programs", "histories", "inputs"],
  "All operation histories up to depth 3-4 over the shared core interface on <=3-4 qubits, executed in lockstep on both cores and on the reference model.",
  "The test-suite runs a few fixed programs on both.",
  ["projectq/backends/_sim/_pysim.py", "projectq/backends/_sim/_cppsim.cpp", "projectq/backends/_sim/_cppkernels/simulator.hpp"],
  [("pure-Python core", "projectq/backends/_sim/_pysim.py")], [], ["core interface of the simulator"])

p("C11", "The classical simulator tracks reversible programs exactly",
  "For every history of allocations, releases, controlled NOTs, register increments/decrements and other supported classical arithmetic, measurements, reads and writes on any qubit ordering, each bit read equals the value of a plain bit-array model, and releasing qubits never disturbs the others. Gates that are not classical are reported as unavailable and refused. Bits and registers read through a mapper are those of the named logical qubits.",
  ["histories", "programs", "inputs"],
  "All histories up to depth 5 over allocate/release/X/CNOT/Toffoli/math/measure/write on <=4 qubits in every register ordering.",
  "Bit-index shifting on release and register packing are order dependent; tests use one order.",
  ["projectq/backends/_sim/_classical_simulator.py"],
  [("bit position bookkeeping", "projectq/backends/_sim/_classical_simulator.py")], [], ["read_bit/read_register/measurement results"])

p("C12", "The unitary simulator returns the exact unitary of the circuit",
  "For every circuit of supported gates over any allocation order, target order and number of controls, the reported unitary is the product of the gates in program order with the first allocated qubit as the least significant bit; after measurements or releases the next gate or allocation keeps the finished unitary in the history and starts a fresh one. Measurement outcomes are possible outcomes for the qubit they are reported for, given the whole program and all earlier outcomes, with the probability the Born rule gives them. Negative controls and gates without a matrix are declared unavailable, gates without a matrix and measurements before a flush are refused, and changing a returned matrix does not change the simulator.",
  ["programs", "inputs"],
  "All circuits up to depth 3 over 1-3 qubit gates in every target/control order and control value on <=3-4 qubits, with allocation, measurement and release in between.",
  "Tests compare a couple of hand-made circuits.",
  ["projectq/backends/_unitary.py"],
  [("matrix lifting", "projectq/backends/_unitary.py")], [], ["UnitarySimulator.unitary/history"])

p("C13", "Arithmetic gates compute the documented function on every input",
  "Each arithmetic gate (constant and register addition/subtraction, modular addition and multiplication, comparison, division, multiplication, with carries and with controls) maps every basis input of every register width to the documented value (identity where its controls are not satisfied), is a bijection on its documented domain, and its inverse, where offered, undoes it, identically on all simulators that can emulate it. Equal gates compare equal (with equal hashes), gates that compute different functions do not.",
  ["inputs", "configurations"],
  "All register widths 1-3(4), all constants (including negative and out-of-range) and moduli, all basis inputs, controls on/off; emulation on the compiled, Python and classical simulators.",
  "Tests compute a few sums with fixed constants.",
  ["projectq/libs/math/_gates.py", "projectq/ops/_basics.py", "projectq/backends/_sim/_simulator.py", "projectq/backends/_sim/_cppkernels/simulator.hpp"],
  [("math functions", "projectq/libs/math/_gates.py")], [], ["simulator state after the gate"])

p("C14", "Arithmetic circuits equal the arithmetic they implement on every input",
  "The elementary-gate circuits generated for arithmetic gates (with any controls) act on every basis state of the documented domain exactly as the documented function, add no relative phases to superpositions, return every helper qubit to zero and release it. The same holds for their inverses, where offered, and for the library routines called directly. Operands outside the domain, mismatching register sizes and controls the circuits cannot honour are refused with an error.",
  ["inputs", "configurations"],
  "All widths 1-3(4), all constants and moduli, all basis inputs as a full unitary (columns), 0-2 controls.",
  "Tests run single inputs; carry chains and control paths depend on all bits.",
  ["projectq/libs/math/_constantmath.py", "projectq/libs/math/_quantummath.py", "projectq/libs/math/_default_rules.py"],
  [("adder circuits", "projectq/libs/math/_constantmath.py, _quantummath.py")], [], ["final simulator state"])

p("C15", "Gate algebra is sound: inverse, merge, identity, equality match matrices",
  "For every gate and every angle: the matrix is the documented one and unitary, the inverse's matrix is the adjoint, merging two gates gives the product (gates that cannot be merged are refused), a gate reports itself the identity only if it is, gates that compare equal have equal matrices/behaviour and (matrix gates aside, which compare with a tolerance) equal hashes, gates of one class with different behaviour compare different, and textual names are faithful to the angle. Angles are taken modulo the gate's true period, so equality and merging survive wrap-around. Controlled, tensor, dagger and flip gates emit exactly the commands they stand for.",
  ["inputs"],
  "Every public gate class and object, angles from a dense grid across several periods plus wrap-around neighbours, all pairs for merge/equality.",
  "Tests check single angles; wrap-around and cross-class comparisons are unsampled.",
  ["projectq/ops/_basics.py", "projectq/ops/_gates.py", "projectq/ops/_metagates.py", "projectq/ops/_state_prep.py", "projectq/ops/_uniformly_controlled_rotation.py", "projectq/ops/_qpegate.py", "projectq/ops/_qaagate.py", "projectq/ops/_time_evolution.py"],
  [("gate classes", "projectq/ops/_gates.py"), ("rotation/phase bases", "projectq/ops/_basics.py")], [], ["gate public methods"])

p("C16", "Qubit-operator algebra and time evolution match their matrices",
  "Sums of Pauli products form an algebra: for all operators (each qubit at most once per term), addition, subtraction, scalar multiplication and division, products, comparison, hashing, compression, inversion, merging and textual/tuple construction agree with the matrices they denote, in-place and out-of-place forms agree (also with an operator combined with itself) and never modify other operands. Applying such an operator as a gate, taking expectation values and evolving in time under a Hamiltonian give exactly the action of those matrices, controlled or not, merged or not, on registers of any size and order. Malformed terms and illegal operations are refused.",
  ["inputs", "programs"],
  "All Pauli terms on <=2-3 qubits with coefficients from a small set incl. complex, all pairs of 1-2 term operators under all operations; all Hamiltonians with <=2 terms and several times.",
  "Tests evaluate isolated sums; aliasing and sign rules are pairwise.",
  ["projectq/ops/_qubit_operator.py", "projectq/ops/_time_evolution.py", "projectq/setups/decompositions/time_evolution.py", "projectq/setups/decompositions/qubitop2onequbit.py"],
  [("Pauli product table", "projectq/ops/_qubit_operator.py"), ("merge/inverse", "projectq/ops/_time_evolution.py")], [], ["operator terms", "simulator state"])

p("C17", "Resource counts are exact",
  "For every command stream the resource counter's gate counts, gate-class counts, maximum width and depth equal those of the commands that passed through it, every command is forwarded unchanged and in order; equal gates with the same number of controls are counted together, different ones apart, and the printed report shows exactly these counts. Depth counts the longest chain of dependent operations, ignoring allocation and release, and width counts simultaneously live qubits.",
  ["programs", "histories"],
  "All command histories up to depth 5-6 over allocate, release, 1- and 2-qubit gates, angles, controls, measurement, with and without a following backend.",
  "Depth and width are history dependent; tests use one circuit.",
  ["projectq/backends/_resource.py"],
  [("counting and depth update", "projectq/backends/_resource.py")], [], ["ResourceCounter public attributes"])

p("C18", "Printed and drawn circuits show every command once, in order",
  "For every circuit the command printer prints every command in order, and the LaTeX and matplotlib drawers show every gate exactly once on the right wires with all its controls and with gates on the same wire in program order, for every drawing option and qubit location assignment, and forward the commands unchanged. Measurement outcomes they are asked to supply are recorded for the measured qubit. Drawing twice gives the same picture. (Pictures show which qubits control a gate, not which value they require; boxes of multi-qubit gates are drawn on neighbouring wires.)",
  ["programs", "configurations"],
  "All circuits up to depth 2 (thorough: 3) over 39 one- to three-qubit gates, controls, swaps, measurement, (de)allocation on 3-4 wires x wire assignments x drawing options x settings x chain positions; the emitted picture is parsed back into a circuit.",
  "Tests compare a few substrings.",
  ["projectq/backends/_printer.py", "projectq/backends/_circuits/"],
  [("line buffers", "projectq/backends/_circuits/_drawer.py"), ("tikz generation", "projectq/backends/_circuits/_to_latex.py")], [], ["printed text / latex / matplotlib artists"])

p("C19", "Cloud backends submit the circuit that was written",
  "For every program a cloud backend (IBM, AQT, IonQ, AWS Braket, Azure) declares available, the job it submits denotes the same circuit on the same qubits - gate names, angles with units, controls, qubit order, measured qubits, shots and device - and commands it cannot express are declared unavailable or refused. Results returned by the service are assigned to the right qubits: probabilities per bit string of any requested register order, and measured values consistent with one outcome the service reported. State from one run never leaks into the next.",
  ["programs", "inputs", "configurations", "histories"],
  "All programs up to depth 3 over each backend's gate alphabet on 2-3 qubits x mappings x result histograms; two consecutive runs on one engine; submissions decoded by an independent reader and executed on the reference model.",
  "Tests compare literal JSON for one circuit each and cannot reach the services.",
  ["projectq/backends/_ibm/_ibm.py", "projectq/backends/_aqt/_aqt.py", "projectq/backends/_ionq/_ionq.py", "projectq/backends/_awsbraket/_awsbraket.py", "projectq/backends/_azure/"],
  [("per-backend command storage", "projectq/backends/_*/")], [], ["requests recorded at the HTTP/boto3/SDK boundary", "measurement results, get_probabilities"])

p("C20", "Cloud job clients report exactly what the service answered, and terminate",
  "For every sequence of service answers (queued, running, completed, failed, cancelled, HTTP error, timeout, device offline or too small, interrupt), submitting or retrieving a job ends with the result of the completed job, or with an error/None that reflects the answer; it never returns a result for an unfinished job, never polls more than the allowed number of times, never submits twice, and always restores the user's interrupt handler. Jobs are only submitted to devices that are online and large enough.",
  ["fault_sequences", "histories", "configurations"],
  "All answer sequences up to length 4 over each client's status/error alphabet at every request point, retries 1..4, for IBM, AQT, IonQ, AWS and Azure clients.",
  "Tests replay one or two canned conversations; the fault space is every position x every answer.",
  ["projectq/backends/_ibm/_ibm_http_client.py", "projectq/backends/_aqt/_aqt_http_client.py", "projectq/backends/_ionq/_ionq_http_client.py", "projectq/backends/_awsbraket/_awsbraket_boto3_client.py", "projectq/backends/_azure/_azure_quantum_client.py"],
  [("polling loops", "projectq/backends/_*/_*_client.py")], [], ["recorded requests, return value/exception, signal handler"])

p("C21", "Measurement results reach the qubit that was measured",
  "Whatever the compiler does in between - mapping, swapping, optimizing, replaying, several flushes, re-measuring, qubits dying - the value read for a qubit is the latest outcome of measuring that very qubit, a one-qubit register reads as its qubit and larger ones refuse, and reading a qubit that was never measured (or is gone) raises the documented error. Values do not move to other or later qubits.",
  ["programs", "histories", "configurations"],
  "All programs up to depth 4 (thorough: 5) of X, H, CNOT, swap, measure, measure in a loop, delete, allocate, flush over 3-4 qubits x engine chains (plain, optimizer, full compilers, line/grid/static/bounded/IBM mappers, setups) x simulators, printer and drawers; the reference keeps every branch of possible outcomes.",
  "Tests measure once right after preparing.",
  ["projectq/cengines/_main.py", "projectq/cengines/_basicmapper.py", "projectq/types/_qubit.py", "projectq/backends/_sim/_simulator.py"],
  [("result store keyed by qubit id", "projectq/cengines/_main.py"), ("logical id tag", "projectq/cengines/_basicmapper.py")], [], ["int(qubit), bool(qubit)"])

p("C22", "Algorithm building blocks produce the documented states and unitaries",
  "State preparation yields the requested state for every normalised amplitude vector, uniformly controlled rotations apply the angle selected by the control value, the quantum Fourier transform is the discrete Fourier transform (outputs in bit-reversed order: the final swaps are not included, as documented), entangling and bit-flip gates do what they document, phase estimation reads the exact phase of exactly representable eigenvalues, amplitude amplification rotates by the documented angle, and arbitrary one-qubit unitaries and their controlled versions are reproduced. This holds for every register size, ordering and with extra controls, and inverses undo them.",
  ["inputs", "configurations"],
  "All sign/zero/phase patterns of amplitude vectors on <=3 qubits, all angle tuples from a grid, widths 1-4, controls 0-2, every target order.",
  "Tests use random or single vectors.",
  ["projectq/setups/decompositions/stateprep2cnot.py", "projectq/setups/decompositions/uniformlycontrolledr2cnot.py", "projectq/setups/decompositions/qft2crandhadamard.py", "projectq/setups/decompositions/phaseestimation.py", "projectq/setups/decompositions/amplitudeamplification.py", "projectq/setups/decompositions/arb1qubit2rzandry.py", "projectq/setups/decompositions/carb1qubit2cnotrzandry.py"],
  [("decomposition functions", "projectq/setups/decompositions/")], [], ["simulator state"])

p("C23", "Oracles compiled from permutations and Boolean functions compute them",
  "For every permutation of basis states and every Boolean function (given as a truth table or a Python function, as a target or a phase), the synthesised oracle maps each basis state to its documented image, flips the target or the phase exactly where the function is 1 (phases: up to one global sign if it is 1 for all-zero inputs), also under control, inversion, repetition and uncomputation, and uses only the qubits handed to it. Invalid permutations, tables and mismatching register sizes are refused.",
  ["inputs"],
  "All permutations of 2, 4 and 8 elements and all Boolean functions of 1-4 variables x synthesis options, every basis state; every placement on 3-5 qubits.",
  "Tests use one permutation and one function with literal gate counts.",
  ["projectq/libs/revkit/"],
  [("command emission from synthesis output", "projectq/libs/revkit/_utils.py")], [], ["simulator state"])

p("C24", "Compiler passes forward every command, in order, exactly as specified",
  "Filtering, tag removal, command modification, comparison, forwarding, optimising-free chains and gate replacement pass every command on exactly once and in order: filters refuse exactly the commands their predicate rejects, tag removers drop exactly the named tags, modifiers apply exactly their function, the replacer leaves available commands untouched and replaces others by a rule for that gate (also through inverses) never altering its rule set. The circuit comparison engine says equal only for circuits that agree gate by gate on each qubit, and never for others.",
  ["programs", "configurations"],
  "All command sequences up to depth 4 through all chains of up to 3 passes; all pairs of circuits up to depth 3 for comparison; all small rule sets x availability predicates.",
  "Tests push one or two commands through each engine alone.",
  ["projectq/cengines/_basics.py", "projectq/cengines/_replacer/", "projectq/cengines/_tagremover.py", "projectq/cengines/_cmdmodifier.py", "projectq/cengines/_testengine.py"],
  [("receive/send protocol", "projectq/cengines/_basics.py"), ("decomposition choice", "projectq/cengines/_replacer/_replacer.py")], [], ["backend receive()"])

p("C25", "Histograms show the outcome probabilities of the requested qubits",
  "For every list of qubits and registers, in any order and grouping, the histogram lists each outcome of exactly these qubits as a bit string in the order given, with the probability the backend reports for it (for the simulator: every outcome with its exact Born probability), draws one bar of that height under that label for each, and neither changes the state nor the list. Backends that know no probabilities, and qubits the backend does not hold, are refused.",
  ["inputs", "configurations"],
  "All ordered selections of up to 4 qubits in all groupings into qubits and registers x states x mappers on the simulator, and x placements on every cloud backend.",
  "Tests look at five registers in ascending order on one simulator and a dummy backend.",
  ["projectq/libs/hist/_histogram.py"],
  [("outcome enumeration and grouping", "projectq/libs/hist/_histogram.py")], [], ["returned probabilities and axes"])

p("C26", "The engine runs exactly the compilers it was given and reports their errors",
  "A main engine runs exactly the compilers of its list, in that order, in front of its backend (the simulator and the default compilers if none are given), each knowing its main engine, and leaves the user's list alone; anything that is not a list of distinct engine instances with at most one mapper, and more engines than the limit, is refused. Questions about availability of commands and support of meta tags are answered by the first engine after the asking one that knows. An error raised by any compiler or the backend for any command reaches the user once, with its type and message, and the engine stays usable. Different engines share no ids, qubits or results.",
  ["configurations", "faults"],
  "All engine lists up to length 4 over 13 kinds of entries x 6 kinds of backends and 5 containers; all chains of 4 answering engines; every position x 12 exception types x 5 commands; 95-103 engines with nested blocks.",
  "Tests build three or four fixed lists and raise one error.",
  ["projectq/cengines/_main.py", "projectq/cengines/_basics.py", "projectq/meta/_util.py"],
  [("engine list assembly", "projectq/cengines/_main.py"), ("error compaction", "projectq/cengines/_main.py")], [], ["MainEngine construction, command stream, exceptions"])

p("C27", "The parallel simulator gives the same result under every thread schedule",
  "Whatever number of threads works on the state and however they are scheduled, every operation of the compiled simulator - gates of every size on every placement with controls, allocation, release, measurement, collapse, probabilities, amplitudes, expectation values, operator application, time evolution, emulated arithmetic - is free of data races and ends with the state and answer that a single thread computes, with the vectorised and the plain kernels.",
  ["schedules", "inputs", "configurations"],
  "All placements of 1-5 targets and all control sets on 1-6 (thorough: 7) qubits and all instances of ten other operations x 2-4 (8) threads x thread orders x both kernel sets; all interleavings of a region by showing that its threads share no conflicting access between barriers.",
  "Tests run with whatever schedule the machine happens to produce, on states so small that the threads hardly overlap.",
  ["projectq/backends/_sim/_cppkernels/simulator.hpp", "projectq/backends/_sim/_cppkernels/intrin/", "projectq/backends/_sim/_cppkernels/nointrin/"],
  [("OpenMP regions, loops and reductions", "projectq/backends/_sim/_cppkernels/")], [], ["simulator state and answers", "memory accesses of the threads of a region"])

p("C28", "Programs that react to measured values are right on every branch",
  "A program that measures, reads results, and lets later gates, releases and allocations depend on them produces each sequence of outcomes with exactly its quantum-mechanical probability, and after each of them leaves exactly the textbook state on the remaining qubits - on every simulator (compiled, fusing, Python, classical) and through every shipped compiler setup and mapper. In particular teleportation, superdense coding, error-correcting codes, magic-state gates, one-way computation, iterative phase estimation, order finding, Grover, Bernstein-Vazirani, Deutsch-Jozsa and Simon give the answers they are known for.",
  ["programs", "histories", "configurations"],
  "All programs of up to 3 (thorough: 4) steps over 17-23 steps on 2-3 qubits, and 160 algorithm instances, x 17 configurations; every sequence of outcomes of non-zero probability is executed.",
  "Tests measure at the end, on one random branch per run.",
  ["projectq/cengines/", "projectq/backends/_sim/", "projectq/setups/", "projectq/ops/", "projectq/meta/"],
  [("measurement results and feedback", "projectq/cengines/_main.py"), ("mapped measurement", "projectq/cengines/_basicmapper.py"), ("collapse", "projectq/backends/_sim/_simulator.py")], [], ["measurement results, simulator state"])

p("C29", "Programs have no effect outside their own engine",
  "Running, compiling or composing a program leaves everything the user handed in as it was: gate objects, operators, vectors, angle lists, matrices, rule sets; each can be used again, shared between programs and engines, inverted, merged, compared, printed or controlled without changing; gates do not change when the list, array or operator they were made from, or a gate derived from them, is changed later. Programs on different engines do not influence each other, however their steps are interleaved and even if one of them fails: each engine emits exactly the commands, and with the same random seed gives the same results, as the program alone in a fresh process, whatever ran before in the process and whatever the hash seed.",
  ["programs", "schedules", "histories", "configurations"],
  "All ordered pairs of 10 programs sharing 30 gate objects x interleavings of their steps (all 20, or 6 behind slow chains) x 17 compiler configurations; all programs after each other; all sequences of 2 (thorough: 3) of 21 operations on each shared gate; all programs in processes with three other hash seeds.",
  "Tests build fresh gates and one engine per test.",
  ["projectq/ops/", "projectq/cengines/", "projectq/meta/", "projectq/setups/"],
  [("gate objects as values", "projectq/ops/"), ("per-engine compiler state", "projectq/cengines/")], [], ["command stream, results, user objects"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P))
