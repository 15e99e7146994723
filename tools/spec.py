"""Single source of the property texts and of the MANIFEST entries (see gen.py)."""


def P(id, title, statement, over, text, why, files, mechanism, state=None, observe=None, technique="", note=""):
    d = {
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {
            "files": files,
            "mechanism": [{"name": n, "where": w} for n, w in mechanism],
            "hook_needed": None,
        },
    }
    if state:
        d["anchors"]["state"] = [{"name": a, "meaning": b, "where": c} for a, b, c in state]
    if observe:
        d["anchors"]["observe_at"] = observe
    d["_technique"], d["_note"] = technique, note
    return d


PROPERTIES = [
    P("P01", "Fock amplitudes are the Taylor coefficients of the Bargmann function",
      "For every Bargmann function c*exp(z.A.z/2 + b.z) (with or without derived variables, batch or superposition axes), "
      "every Fock conversion the library offers returns exactly the array of normalised Taylor coefficients sqrt(n!) * [z^n] of that function, for every requested shape. "
      "All strategies (default, stable, batched over b, broadcast, fixed-norm, diagonal-only and one-leftover-mode) agree entry by entry with it, "
      "touch no memory outside their arrays and leave their operands unchanged.",
      ["inputs", "configurations"],
      "all complex symmetric A (any number of core and derived variables), b, c, every shape (including rectangular, size-1), every batch shape, every strategy and backend",
      "The tests compare strategies against each other for a few fixed physical states and square shapes; a shared mistake or a mistake at unequal cutoffs/odd batch shapes is invisible to them, and out-of-bounds accesses of compiled kernels are silent.",
      ["mrmustard/math/lattice", "mrmustard/math/backend_manager.py", "mrmustard/math/backend_numpy.py", "mrmustard/math/backend_jax.py", "mrmustard/math/jax_vjps/hermite.py", "mrmustard/physics/ansatz/polyexp_ansatz.py", "mrmustard/lab/circuit_components.py"],
      [("vanilla / stable recurrences", "mrmustard/math/lattice/strategies/vanilla/core.py"),
       ("diagonal and one-leftover strategies", "mrmustard/math/lattice/strategies/compactFock"),
       ("dispatch hermite_renormalized*", "mrmustard/math/backend_manager.py, backend_numpy.py, backend_jax.py"),
       ("fock_array / to_fock / to_bargmann", "mrmustard/lab/circuit_components.py")],
      observe=["math.hermite_renormalized*", "CircuitComponent.fock_array/to_fock"],
      technique="runtime monitor: independent extended-precision Taylor recurrence as online oracle on random inputs, under numba bounds checking and with operand snapshots",
      note="randomised exploration; oracle is an independent long-double recurrence; kernels run also under NUMBA_BOUNDSCHECK"),
    P("P02", "Closed-form gate arrays equal the generic Fock conversion",
      "The specialised Fock-array formulas for displacement, squeezing, squeezed vacuum and beam splitter (all its strategies) give, for all parameters and every cutoff tuple, "
      "exactly the matrix elements of the corresponding unitary/state, i.e. the same numbers as the generic conversion of the same gate and as the quantum-mechanical operator exponential.",
      ["inputs", "configurations"],
      "all real/complex gate parameters including 0, large and negative values, all cutoff tuples (unequal, 1, non-square), all batch shapes",
      "Tests check one or two parameter values at square cutoffs; the recurrences have index-boundary cases that only appear for unequal cutoffs.",
      ["mrmustard/math/lattice/strategies/displacement.py", "mrmustard/math/lattice/strategies/squeezer.py", "mrmustard/math/lattice/strategies/beamsplitter.py", "mrmustard/lab/transformations/dgate.py", "mrmustard/lab/transformations/sgate.py", "mrmustard/lab/transformations/bsgate.py", "mrmustard/lab/states/squeezed_vacuum.py"],
      [("closed-form recurrences", "mrmustard/math/lattice/strategies/{displacement,squeezer,beamsplitter}.py"),
       ("fock_array overrides", "mrmustard/lab/transformations/{dgate,sgate,bsgate}.py, mrmustard/lab/states/squeezed_vacuum.py")],
      technique="runtime monitor: online oracle from truncated operator exponentials / independent recurrences on random parameters and shapes",
      note="randomised exploration against independent operator-exponential oracle"),
    P("P03", "Hand-written gradients are the true derivatives",
      "Every custom gradient of the Fock-space primitives (recurrences, displacement, squeezer, beam splitter, and the states and gates using them) equals the actual derivative of the function it belongs to, "
      "for every input, cutoff, batch shape and upstream gradient, so that automatic differentiation of any cost function through the library returns its true gradient.",
      ["inputs", "configurations"],
      "all differentiable inputs (A, b, c, gate parameters), all output cutoffs, all cotangents",
      "Tests exercise a gradient only through a few training runs that converge even with a wrong gradient, or check one point.",
      ["mrmustard/math/jax_vjps", "mrmustard/math/lattice/strategies/vanilla/gradients.py", "mrmustard/math/lattice/strategies/compactFock", "mrmustard/math/lattice/strategies/displacement.py", "mrmustard/math/lattice/strategies/beamsplitter.py", "mrmustard/math/lattice/strategies/squeezer.py", "mrmustard/math/backend_jax.py"],
      [("custom vjp definitions", "mrmustard/math/jax_vjps/hermite.py, fock_utils.py"),
       ("numba gradient kernels", "mrmustard/math/lattice/strategies/**/gradients")],
      technique="runtime monitor: finite-difference (Richardson) oracle on every recorded vjp call with random cotangents",
      note="randomised exploration; tolerance of numerical differentiation"),
    P("P04", "Ansatz arithmetic is pointwise arithmetic of the functions",
      "Adding, subtracting, scaling, dividing, multiplying, tensoring, conjugating, reordering, partially evaluating, simplifying, decomposing or slicing an ansatz "
      "yields an ansatz whose value at every point is the corresponding combination of the values of the operands, with the batch (or, for superpositions, the sum over terms) semantics of arrays. "
      "Equality of ansatze reports equality of those functions.",
      ["inputs", "programs"],
      "all polynomial-exponential and array ansatze (any core/derived variables, batch and superposition shapes), all sequences of operations, all points",
      "Tests check single operations on small fixed triples; compositions with derived variables, superposition and batch axes together are not enumerated.",
      ["mrmustard/physics/ansatz", "mrmustard/physics/gaussian_integrals.py", "mrmustard/physics/utils.py", "mrmustard/physics/fock_utils.py"],
      [("PolyExpAnsatz", "mrmustard/physics/ansatz/polyexp_ansatz.py"), ("ArrayAnsatz", "mrmustard/physics/ansatz/array_ansatz.py"), ("join_Abc / reorder_abc", "mrmustard/physics/gaussian_integrals.py")],
      technique="runtime monitor: random expression programs with an independent pointwise evaluator as online oracle",
      note="randomised exploration of expression trees"),
    P("P05", "Contractions and traces are the exact Gaussian integrals",
      "Contracting or tracing ansatze over any set of matching core indices and batch labels gives the exact Bargmann inner-product integral (equivalently the Fock-index sum) of the operands, "
      "for any polynomial prefactors, batch alignment and index order, and low-level real/complex Gaussian integrals equal their analytic value.",
      ["inputs", "programs"],
      "all integrable triples with any number of core, derived and integrated variables, all index/batch label assignments",
      "Tests use a handful of contraction patterns, mostly without derived variables or with a single batch axis.",
      ["mrmustard/physics/gaussian_integrals.py", "mrmustard/physics/ansatz/polyexp_ansatz.py", "mrmustard/physics/ansatz/array_ansatz.py", "mrmustard/physics/utils.py", "mrmustard/physics/mm_einsum.py"],
      [("complex_gaussian_integral_1/2, real_gaussian_integral", "mrmustard/physics/gaussian_integrals.py"), ("contract / trace", "mrmustard/physics/ansatz")],
      technique="runtime monitor: Fock-sum oracle (independent Taylor coefficients + einsum) on random contraction patterns",
      note="randomised exploration; operands small enough for the truncated Fock sum to converge"),
    P("P06", "Circuits compose as quantum mechanics prescribes",
      "For every circuit built from the library's states, gates, channels, conditional measurements and partial traces on any mode labels, the resulting component has exactly the "
      "Gaussian moments, Fock amplitudes, probabilities and remaining modes that the quantum-mechanical evolution of the same operations gives, independent of the value of hbar. Adjoint and dual components act as the Hermitian-conjugate operators.",
      ["programs", "inputs", "configurations"],
      "all sequences of components, parameters, mode labels and orderings, values of hbar, batch shapes, ket/density-matrix pictures",
      "Tests check individual gates against formulas and a few hand-written circuits; the composition space (mode labels, orders, ket/dm mixing) is unbounded.",
      ["mrmustard/lab", "mrmustard/physics/triples.py", "mrmustard/physics/symplectics.py", "mrmustard/physics/wires.py", "mrmustard/physics/bargmann_utils.py"],
      [("component composition >>, @, contract", "mrmustard/lab/circuit_components.py"), ("Bargmann triples of every component", "mrmustard/physics/triples.py"), ("symplectic generators", "mrmustard/physics/symplectics.py")],
      technique="runtime monitor: shadow execution - independent phase-space and truncated-Fock simulators run in lockstep with random circuits",
      note="randomised exploration; non-Gaussian circuits compared up to cutoff convergence"),
    P("P07", "Results do not depend on contraction order, path or representation",
      "Contracting the components of a circuit in any valid order, through a Circuit with any or an optimised path, by mm_einsum with any or an automatically chosen path, or after converting any of the components to Fock (with large enough shapes), gives the same component on the same wires.",
      ["schedules", "programs"],
      "all valid contraction paths of all circuits, all assignments of Bargmann/Fock representation to the components, all optimiser choices",
      "Tests fix one path per circuit; the path optimiser is random, so a single run samples one path out of many.",
      ["mrmustard/path", "mrmustard/lab/circuits.py", "mrmustard/lab/circuit_components.py", "mrmustard/physics/mm_einsum.py"],
      [("branch and bound / rule-based path search", "mrmustard/path"), ("Circuit.contract / optimize", "mrmustard/lab/circuits.py"), ("mm_einsum", "mrmustard/physics/mm_einsum.py")],
      technique="runtime monitor: contraction-schedule exploration (enumerated and random schedules), all results compared with the sequential reference execution",
      note="every schedule of small circuits is enumerated, larger ones sampled"),
    P("P08", "Wire bookkeeping matches the labelled-multiset model",
      "Every operation on wires (composition, tensoring, adjoint/dual, subsets, relabelling, sorting, contracted labels) returns exactly the wires that the mathematical model of labelled (mode, bra/ket, in/out, classical/quantum) ports prescribes, "
      "the returned permutation and labels put the data in the standard order, incompatible wires are rejected, and the operands are not changed.",
      ["inputs", "programs"],
      "all sets of mode labels on the six port groups, all pairs/sequences of wire operations",
      "Tests look at specific small mode sets; the index arithmetic depends on the relative order and overlap of arbitrary label sets.",
      ["mrmustard/physics/wires.py"],
      [("Wires", "mrmustard/physics/wires.py")],
      technique="runtime monitor: model-based testing, an independent label model runs in lockstep with random operation sequences",
      note="randomised exploration of label sets and operation sequences"),
    P("P09", "Gates are unitary, channels are CPTP and parametrisations round-trip",
      "Every unitary component is unitary (symplectic, inverse and dual cancel it), every channel is trace preserving and completely positive, inverses undo, "
      "and constructions from symplectic, X/Y, quadrature, phase-space, Bargmann or Fock data return the same data when asked back; random generators only return objects of their announced class.",
      ["inputs", "configurations"],
      "all parameter values of all transformations, all symplectic matrices and (X,Y,d) triples, all modes, values of hbar and seeds",
      "Tests check a few parameters; conservation laws must hold on the whole parameter space and on all random draws.",
      ["mrmustard/lab/transformations", "mrmustard/physics/triples.py", "mrmustard/physics/symplectics.py", "mrmustard/physics/bargmann_utils.py", "mrmustard/math/backend_manager.py"],
      [("Unitary/Channel/Map/Operation constructors and inverse", "mrmustard/lab/transformations/base.py"), ("Bargmann <-> XY conversions", "mrmustard/physics/bargmann_utils.py"), ("random symplectic/orthogonal/unitary", "mrmustard/math/backend_manager.py")],
      technique="runtime monitor: conservation-law invariants (symplecticity, trace, Choi positivity, round trips) checked on every generated object",
      note="randomised exploration"),
    P("P10", "State functionals have their quantum-mechanical values",
      "Probability, purity, fidelity, expectation values, photon-number distribution, moments, entropy-like quantities, normalisation, partial trace, and physicality verdicts of every state equal the values computed from its density matrix, "
      "whichever way (ket, density matrix, Bargmann, Fock, batch, superposition) the state is represented.",
      ["inputs", "configurations"],
      "all states (Gaussian, polynomial-Gaussian, superpositions, Fock), all mode subsets, orders, batch shapes, cutoffs",
      "Tests check the functionals on single named states; each has separate code branches per representation, batch and mode subset.",
      ["mrmustard/lab/states", "mrmustard/physics/gaussian.py", "mrmustard/physics/fock_utils.py", "mrmustard/physics/bargmann_utils.py", "mrmustard/math/backend_manager.py"],
      [("State/Ket/DM methods", "mrmustard/lab/states/{base,ket,dm}.py"), ("Gaussian formulas", "mrmustard/physics/gaussian.py"), ("Fock formulas", "mrmustard/physics/fock_utils.py")],
      technique="runtime monitor: functionals recomputed from the independently obtained density matrix / moments for every generated state",
      note="randomised exploration against density-matrix oracle"),
    P("P11", "Phase-space and quadrature pictures agree with the state",
      "Wigner functions, characteristic functions, Bargmann-to-quadrature and Bargmann-to-phase-space changes of picture, quadrature wave functions and the data drawn by visualisations equal the values defined by the state's density matrix for every grid, ordering parameter, quadrature angle and hbar.",
      ["inputs", "configurations"],
      "all states, grids, s-orderings, quadrature angles, hbar values, batch shapes",
      "Tests evaluate at a few points of a few states at the default hbar.",
      ["mrmustard/physics/wigner.py", "mrmustard/physics/fock_utils.py", "mrmustard/physics/triples.py", "mrmustard/lab/circuit_components_utils", "mrmustard/lab/states", "mrmustard/lab/circuit_components.py"],
      [("wigner_discretized", "mrmustard/physics/wigner.py"), ("BtoQ, BtoPS, BtoChar", "mrmustard/lab/circuit_components_utils"), ("quadrature / phase_space / from_*", "mrmustard/lab/states")],
      technique="runtime monitor: pictures recomputed from the density matrix with independent displaced-parity / Hermite-function formulas",
      note="randomised exploration"),
    P("P12", "Batch elements and superposition terms are independent",
      "Any operation on a batched component gives, in each batch position, exactly what the same operation gives on that element alone, with the announced batch shape; an operation on a linear superposition gives the superposition of the results on the terms.",
      ["inputs", "programs"],
      "all batch shapes (including empty prefix, size one, several axes), all broadcasts, all operations and circuits",
      "Tests mostly use one fixed batch shape per operation; cross-talk between elements appears only for particular values or shapes.",
      ["mrmustard/lab", "mrmustard/physics", "mrmustard/math/backend_manager.py"],
      [("batch strings and broadcasting", "mrmustard/lab/circuit_components.py, mrmustard/physics/ansatz, mrmustard/physics/utils.py")],
      technique="runtime monitor: metamorphic oracle, batched execution compared element by element with scalar executions",
      note="randomised exploration"),
    P("P13", "The numpy and jax backends agree",
      "Every backend function, component, circuit and state functional returns the same values, shapes and kinds (real/complex) on the jax backend as on the numpy backend, including under jit, and raises where the other raises for invalid input.",
      ["inputs", "configurations"],
      "all backend functions and all circuits, all argument shapes and dtypes",
      "The test suite runs per backend against backend-specific expectations, it never compares both on the same random input.",
      ["mrmustard/math", "mrmustard/lab", "mrmustard/physics"],
      [("backend dispatch", "mrmustard/math/backend_manager.py"), ("backends", "mrmustard/math/backend_numpy.py, backend_jax.py")],
      technique="runtime monitor: differential execution of the same random call log under both backends, offline comparison",
      note="randomised exploration, differential"),
    P("P14", "Operations do not change operands, history or global state",
      "No public operation changes the components, arrays, wires or settings given to it or objects obtained earlier, and the result of an operation does not depend on which operations (cache fills, conversions, changes of settings and back, nested setting scopes, exceptions) were performed before it.",
      ["histories", "inputs"],
      "all sequences of operations sharing operands, settings scopes and caches",
      "Tests use fresh objects; aliasing, stale caches and leaked settings show only in multi-step histories.",
      ["mrmustard/utils/settings.py", "mrmustard/lab/circuit_components.py", "mrmustard/lab", "mrmustard/physics", "mrmustard/math/backend_manager.py"],
      [("settings context manager", "mrmustard/utils/settings.py"), ("light copies, cached arrays", "mrmustard/lab/circuit_components.py, mrmustard/math/backend_manager.py, mrmustard/physics/triples.py, mrmustard/physics/fock_utils.py")],
      state=[("settings values", "global configuration", "mrmustard/utils/settings.py"), ("lru caches", "memoised arrays", "mrmustard/math/backend_manager.py, mrmustard/physics")],
      technique="runtime monitor: deep fingerprints of every live object before/after each step of random histories, and re-execution in a permuted history",
      note="randomised exploration of histories"),
    P("P15", "Saving and loading preserves components and tolerates faults",
      "Loading what was saved gives back an equal object (type, modes, parameters with their trainability and bounds, representation, batch and superposition structure, circuits with their components and path), on either backend; "
      "saving twice never mixes two objects, and a crash, failed write or corrupt file never yields a different object silently nor damages previously saved ones.",
      ["inputs", "crash_points", "fault_sequences"],
      "all components and circuits, file names, repeated saves/loads/removals, an interruption at every file operation, truncation or corruption of files",
      "Tests round-trip a list of components once, without faults.",
      ["mrmustard/utils/serialize.py", "mrmustard/lab", "mrmustard/math/parameters.py", "mrmustard/physics/ansatz"],
      [("save/load", "mrmustard/utils/serialize.py"), ("_serialize/_deserialize", "mrmustard/lab")],
      technique="runtime monitor: round-trip oracle with structural fingerprints, plus fault injection at every file operation",
      note="randomised exploration; every file operation of a save/load is a crash point"),
    P("P16", "Components follow their parameters and training respects constraints",
      "A component's representation always is the one of its current parameter values, constants never change, trainable parameters stay inside their bounds and on their manifold (orthogonal, unitary, symplectic) during training, "
      "every update step follows the (Riemannian) gradient, and the optimiser returns the objects it was given with a recorded history of the true cost values and never leaves the best-seen parameters worse than reported.",
      ["histories", "inputs"],
      "all parameter types, bounds, cost functions, learning rates, numbers of steps, sequences of reads and writes",
      "Tests run a few short trainings and look at the final cost.",
      ["mrmustard/math/parameters.py", "mrmustard/math/parameter_set.py", "mrmustard/training", "mrmustard/lab"],
      [("Variable update functions", "mrmustard/math/parameters.py, mrmustard/training/parameter_update.py"), ("optimizer loop", "mrmustard/training/optimizer.py"), ("lazy ansatz of components", "mrmustard/lab/circuit_components.py")],
      technique="runtime monitor: manifold/bounds/consistency invariants checked after every read, write and optimisation step",
      note="randomised exploration of training histories"),
    P("P17", "Samplers follow the state's distribution and their seed",
      "Samplers return outcomes inside the announced outcome set with the announced shape, whose joint frequencies follow the probabilities of the state, also mode by mode for correlated states; "
      "the same seed gives the same samples and the probabilities they report are those of the state.",
      ["inputs", "configurations"],
      "all states, modes, measurement angles, cutoffs/grids, numbers of shots, seeds",
      "Tests only compare one marginal for one state with a loose tolerance.",
      ["mrmustard/lab/samplers.py", "mrmustard/physics/fock_utils.py"],
      [("PNRSampler, HomodyneSampler", "mrmustard/lab/samplers.py")],
      technique="runtime monitor: statistical oracle (exact joint distribution, chi-square with 1e-9 false-alarm level) and seed replay",
      note="statistical; false-alarm probability per test below 1e-9"),
    P("P18", "Stellar decompositions reconstruct the state",
      "Every stellar decomposition of a ket, density matrix or unitary (formal or physical) returns a core part and a Gaussian part that compose back to the original object exactly, the core part has the announced finite-support/vacuum form and the Gaussian part is of the announced physical type; invalid splits are rejected.",
      ["inputs"],
      "all Gaussian and finite stellar-rank states, channels and unitaries, all choices of core modes",
      "Tests reconstruct from a few random states with a fixed split of the modes.",
      ["mrmustard/lab/states/ket.py", "mrmustard/lab/states/dm.py", "mrmustard/physics/ansatz/polyexp_ansatz.py"],
      [("formal/physical stellar decompositions", "mrmustard/lab/states/ket.py, mrmustard/lab/states/dm.py")],
      technique="runtime monitor: reconstruction oracle on random states and all mode splits",
      note="randomised exploration"),
    P("P19", "Automatic and manual Fock shapes are honoured",
      "The automatically chosen Fock shape of any component captures at least the configured share of its probability (within the configured minimum and maximum), manual shapes are always honoured and survive operations, "
      "and converting with a larger or smaller shape only adds or drops entries without changing the others.",
      ["inputs", "configurations"],
      "all states and circuits, settings of the probability threshold and shape limits, manual shapes",
      "Tests check the shapes of a few named states.",
      ["mrmustard/math/lattice/autoshape.py", "mrmustard/lab/circuit_components.py", "mrmustard/lab/states", "mrmustard/physics/ansatz/array_ansatz.py"],
      [("autoshape_numba", "mrmustard/math/lattice/autoshape.py"), ("auto_shape / manual_shape", "mrmustard/lab/circuit_components.py, mrmustard/lab/states")],
      technique="runtime monitor: marginal-probability oracle of every automatically chosen shape, and prefix-consistency monitor",
      note="randomised exploration"),
]
NOT_APPLICABLE = []
