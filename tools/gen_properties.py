#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a generator so that the text stays reviewable)."""
import json, os

P = []


def prop(id, title, statement, over, qtext, why, files, mech, observe, hook=None, state=None):
    a = {"files": files,
         "mechanism": [{"name": n, "where": w} for n, w in mech],
         "observe_at": observe, "hook_needed": hook}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})


prop("C01", "Exact-diagonalisation results do not depend on the number of processes",
     "Band structures (with or without orbital projection), density of states, eigenstates, spin textures and Z2 "
     "phases computed by exact diagonalisation with MPI enabled are the same, on every process, as those of a "
     "single-process run of the same model, up to floating-point summation order. "
     "This holds for every number of processes, including more processes than k-points, and for every relative "
     "speed of the processes.",
     ["schedules", "configurations", "inputs"],
     "every model, k-point set, solver option, process count and every order in which the processes reach and "
     "leave each collective",
     "The test suite only ever runs with MPI disabled or with one process, so the distribution and collection of "
     "k-points over several processes is never executed.",
     ["tbplas/diagonal/base.py", "tbplas/diagonal/magnetic.py", "tbplas/diagonal/z2.py", "tbplas/parallel.py",
      "tbplas/utils.py"],
     [("k-points are distributed over processes and the zero-filled partial arrays are summed",
       "tbplas/diagonal/base.py: calc_bands, calc_dos, calc_states"),
      ("spin expectation values summed over processes", "tbplas/diagonal/magnetic.py: eval"),
      ("Wannier-centre phases summed over processes", "tbplas/diagonal/z2.py: calc_phases")],
     ["return values of the band, DOS, states, spin texture and Z2 calculators on each simulated process"])

prop("C02", "Response functions do not depend on the number of processes",
     "Dynamic polarisation on regular and arbitrary q-points, dielectric functions and AC conductivity from the "
     "Lindhard/Kubo formulas computed with MPI enabled are the same, on every process, as those of a single-process "
     "run of the same model, up to floating-point summation order. "
     "This holds for every number of processes, every number of q-points, every k-mesh and both computation "
     "back ends.",
     ["schedules", "configurations", "inputs"],
     "every model, k-mesh, set of q-points, back end, process count and relative speed of the processes",
     "The tests call these functions with MPI disabled; neither the splitting of the k-mesh nor the accumulation "
     "over processes with several q-points is ever executed.",
     ["tbplas/diagonal/lindhard.py", "tbplas/parallel.py", "tbplas/cython/lindhard.pyx", "tbplas/fortran/lindhard.f90"],
     [("k-mesh bounds distributed over processes, partial sums reduced", "tbplas/diagonal/lindhard.py: "
       "calc_dyn_pol_regular, calc_dyn_pol_arbitrary, calc_ac_cond"),
      ("inclusive work bounds of a process", "tbplas/parallel.py: dist_bound")],
     ["return values of the polarisation, dielectric-function and AC-conductivity calculators on each process"])

prop("C03", "TBPM on P processes equals one process running all the random samples",
     "A tight-binding propagation calculation (DOS, LDOS, AC, dynamic polarisation, DC, Hall moments, "
     "quasi-eigenstates) run on P processes returns, on every process, the average over the same set of distinct "
     "random samples that a single process with that total number of samples and the same (non-zero) seed uses. "
     "The result is fixed by the model, the configuration and the seed alone: it never depends on the relative "
     "speed of the processes, and no two processes ever contribute the same sample.",
     ["schedules", "configurations", "inputs"],
     "every sample, configuration, seed, process count (dividing the requested samples or not) and schedule",
     "Tests run a single process with MPI disabled and check reproducibility for one fixed seed only.",
     ["tbplas/tbpm/solver.py", "tbplas/parallel.py", "tbplas/fortran/tbpm.f90", "tbplas/fortran/random.f90"],
     [("random samples distributed over processes", "tbplas/tbpm/solver.py: _dist_sample"),
      ("per-sample seed derived from sample index and process rank", "tbplas/fortran/tbpm.f90"),
      ("average over processes", "tbplas/parallel.py: all_average")],
     ["return values of every correlation-function calculation on each simulated process"])

prop("C04", "Every parallel calculation terminates with matching collectives on all ranks",
     "In every parallel calculation that all processes start with the same valid arguments, all processes take part in the same sequence of collective operations with "
     "compatible buffers, so the calculation finishes on every process: it never deadlocks, and no process fails "
     "or returns while others wait for it. "
     "This holds for any number of processes, including more processes than work items, and however slow or "
     "stalled some of the processes are.",
     ["schedules", "configurations", "fault_sequences"],
     "every calculation, process count from 1 to more than the number of work items, delay or stall of any rank "
     "at any point",
     "With one process every collective is trivially matched; an early return or a rank-dependent branch cannot "
     "show up.",
     ["tbplas/parallel.py", "tbplas/utils.py", "tbplas/diagonal/base.py", "tbplas/diagonal/lindhard.py",
      "tbplas/diagonal/z2.py", "tbplas/diagonal/magnetic.py", "tbplas/tbpm/solver.py", "tbplas/tbpm/analysis.py"],
     [("collectives are issued unconditionally by every process", "all solvers"),
      ("work bounds for processes without work", "tbplas/parallel.py: dist_bound, dist_range")],
     ["sequence of collective calls of each simulated rank, outcome of each rank"])

prop("C05", "Post-processing gives every process the single-process answer",
     "The quantities derived from correlation functions (DOS, LDOS, AC and DC conductivity, dynamic polarisation, "
     "dielectric function, diffusion coefficients, Hall conductivity) are returned identically on every process and "
     "equal the values obtained without MPI from the same input, for every process count and schedule.",
     ["schedules", "configurations", "inputs"],
     "every correlation function, option, process count, broadcast completion order",
     "Only one process is exercised, where the computing process and the receiving process are the same.",
     ["tbplas/tbpm/analysis.py", "tbplas/parallel.py"],
     [("the master computes and broadcasts into buffers pre-allocated by the other processes",
       "tbplas/tbpm/analysis.py")],
     ["return values of each analysis function on each simulated process"])

prop("C06", "Distributed work is assigned to exactly one process, in order",
     "For every number of work items and every number of processes, the parts handed to the processes by the list, "
     "range and bounds distributors are disjoint, together contain every item exactly once, are in increasing rank "
     "order for contiguous splitting, and differ in size by at most one. "
     "The part of a process is a valid (possibly empty) piece of work on every process, or the split is refused on every process alike, and it does not depend on "
     "anything but its rank, the process count and the amount of work.",
     ["schedules", "configurations", "inputs"],
     "every item count, process count and rank, asked in any order and any number of times by concurrently "
     "progressing ranks",
     "Tests check one or two fixed sizes on a single process.",
     ["tbplas/parallel.py", "tbplas/utils.py"],
     [("splitting of lists and ranges", "tbplas/utils.py: split_list, split_range"),
      ("part of this rank", "tbplas/parallel.py: dist_list, dist_range, dist_bound")],
     ["values returned by the distributors on each simulated rank"])

prop("C07", "Reductions, averages and broadcasts preserve values, layout and inputs",
     "Summing, averaging and broadcasting an array that every process holds in the same layout gives exactly the element-wise sum, mean or "
     "master copy with the shape, type and element positions of the input, whatever its memory layout; with MPI "
     "disabled the value is the input itself. "
     "The local contribution of a process is not modified, a process's later changes to its own arrays never "
     "affect what the others receive, and an array that cannot be transferred faithfully is refused on every "
     "process rather than silently scrambled.",
     ["schedules", "inputs", "configurations"],
     "every shape, dtype, memory order, process count, and early or late completion of each process's part of a "
     "collective",
     "Tests use one process, C-ordered arrays and never look at buffers after the call.",
     ["tbplas/parallel.py"],
     [("receive buffers are allocated in the layout of the local data", "tbplas/parallel.py: reduce, all_reduce, "
       "average, all_average, bcast")],
     ["arrays passed to and returned from the communication helpers on each simulated rank"])

prop("C08", "Native kernels do not depend on the number or interleaving of OpenMP threads",
     "Every propagation, Chebyshev/Haydock recursion, correlation and response kernel gives the same result, up to "
     "floating-point summation order, whatever the number of OpenMP threads it runs on and however those threads "
     "are interleaved. "
     "The random sequence used by a calculation is likewise independent of the threads.",
     ["schedules", "configurations", "inputs"],
     "every kernel, team size from 1 to more threads than iterations, and every preemption of a thread at a shared "
     "memory access",
     "A data race loses an update only under rare preemptions; tests run one uncontrolled schedule on tiny inputs "
     "with tolerant comparisons.",
     ["tbplas/fortran/tbpm.f90", "tbplas/fortran/math.F90", "tbplas/fortran/csr.F90", "tbplas/fortran/kpm.f90",
      "tbplas/fortran/funcs.f90", "tbplas/fortran/analysis.f90", "tbplas/fortran/lindhard.f90",
      "tbplas/fortran/random.f90", "tbplas/fortran/propagation.f90"],
     [("data-sharing clauses and reductions of the parallel regions", "tbplas/fortran/*")],
     ["return values of the native entry points under the simulated OpenMP runtime"])

prop("C09", "Native results do not depend on previous memory contents or calls",
     "A native computation returns the same result whatever stale data the memory it allocates happens to contain "
     "and whatever computations ran before it in the same process. "
     "Repeating a call with the same arguments reproduces the same result, and the caller's input arrays are left "
     "unchanged.",
     ["histories", "inputs", "fault_sequences"],
     "every native entry point, every content of freshly allocated memory, every preceding sequence of calls",
     "In a fresh test process newly allocated memory is nearly always zero, so a missing initialisation is "
     "invisible.",
     ["tbplas/fortran/tbpm.f90", "tbplas/fortran/math.F90", "tbplas/fortran/csr.F90", "tbplas/fortran/kpm.f90",
      "tbplas/fortran/funcs.f90", "tbplas/fortran/analysis.f90", "tbplas/fortran/lindhard.f90",
      "tbplas/cython/lindhard.pyx", "tbplas/cython/sample.pyx", "tbplas/cython/super.pyx"],
     [("explicit initialisation of accumulators and work arrays", "tbplas/fortran/*, tbplas/cython/*"),
      ("re-seeding at the start of every sample", "tbplas/fortran/random.f90")],
     ["return values of the native entry points with poisoned allocations"])

prop("C10", "Saved sample arrays load back as one consistent snapshot or not at all",
     "Loading arrays that a sample saved restores orbital energies, positions, hopping terms and scaling factor "
     "exactly as they were at one save: every restored array comes from one and the same save, and hopping terms are "
     "restored completely, with the scaling factor, or not at all. "
     "If the saving run crashed, ran out of disk space or hit an I/O error at any point, or files were damaged or "
     "lost afterwards, loading does the same or reports an error and leaves the sample as it was; files that are there are "
     "never silently skipped, and "
     "it never yields a mixture of two saves or half-read arrays.",
     ["crash_points", "fault_sequences", "histories", "inputs"],
     "every sequence of saves and loads of changing samples into one directory, every crash point, short write, "
     "full disk, I/O error and truncated or missing file",
     "The tests save and load once, without faults, into an empty directory.",
     ["tbplas/builder/sample.py"],
     [("arrays are written to separate files and read back together", "tbplas/builder/sample.py: save_array, "
       "load_array")],
     ["array attributes and Hamiltonian of a sample after loading"])

prop("C11", "An acknowledged calculation leaves its complete result on disk",
     "When a propagation calculation returns, the result file it announces contains exactly the returned array, "
     "and when it fails or is killed, no file under that name ever reads back as a different or partial result: it "
     "holds the previous result, the new one, or is recognisably unreadable. "
     "Only the master process writes, a write error is reported rather than swallowed on the writing process, and "
     "a propagation found to break down ends the run with a failure status and leaves no result file.",
     ["crash_points", "fault_sequences", "schedules", "configurations"],
     "every calculation, crash point, write error, process count and schedule",
     "Tests never read the files back and never fail a write.",
     ["tbplas/tbpm/solver.py"],
     [("file names derived from directory, prefix and quantity", "tbplas/tbpm/solver.py: set_output"),
      ("only the master saves, after the reduction", "tbplas/tbpm/solver.py: _save_data")],
     ["content of the output directory in simulated storage versus the returned arrays"])

prop("C12", "A saved configuration reads back equal or is rejected",
     "Reading a configuration saved by a solver gives back all parameters as they were when it was "
     "saved, and saving never alters them. "
     "If the write was torn by a crash, a full disk or an I/O error, reading reports an error or returns a complete "
     "configuration (the old or the new one), never a partial one.",
     ["crash_points", "fault_sequences", "histories"],
     "every parameter set, sequence of saves and reads, crash point, short or failed write",
     "Tests never save or read a configuration under a fault.",
     ["tbplas/tbpm/config.py", "tbplas/tbpm/solver.py"],
     [("serialisation of the whole object to one file", "tbplas/tbpm/config.py, tbplas/tbpm/solver.py: save_config")],
     ["parameters of the configuration read back"])

prop("C13", "Concurrent processes and jobs do not trip over each other's output",
     "Jobs with different prefixes that start at the same time in the same output directory all succeed and each "
     "finds its own complete results, in whatever order they create the directory and write. "
     "Within one parallel job all files carry the same prefix, the directory "
     "exists before any process proceeds, processes that save the same sample at once all succeed, and messages, log "
     "lines and figures are produced once, by the master only.",
     ["schedules", "configurations", "fault_sequences"],
     "every interleaving of directory creation, config and result writes of several jobs with several processes "
     "each, every clock skew between processes",
     "Tests start one job in one process.",
     ["tbplas/tbpm/solver.py", "tbplas/parallel.py", "tbplas/builder/sample.py", "tbplas/visual.py"],
     [("directory created by the master followed by a barrier", "tbplas/tbpm/solver.py: set_output"),
      ("output restricted to the master", "tbplas/parallel.py: print, log; tbplas/visual.py")],
     ["files, messages and exceptions of each simulated process"])

prop("C14", "Importing damaged Wannier90 output fails instead of giving a wrong model",
     "Importing a model from Wannier90 output files gives every orbital and every hopping term contained in the "
     "files, or raises an error. "
     "If any of the files is missing, unreadable or was cut short because the producing run was killed or the disk "
     "was full, no model silently lacking orbitals or hopping terms is ever returned.",
     ["fault_sequences", "crash_points", "inputs"],
     "every set of files, truncation point, read error",
     "Tests import a single intact data set.",
     ["tbplas/adapter/wannier90.py"],
     [("readers of the structure, centres, Hamiltonian and Wigner-Seitz files", "tbplas/adapter/wannier90.py")],
     ["primitive cell returned by the importer"])

prop("C15", "A primitive cell always reflects its current definition",
     "After any sequence of adding, changing and removing orbitals and hopping terms, lattice changes, trimming and "
     "boundary changes, the arrays, counters and Hamiltonian of a primitive cell describe exactly the current "
     "orbitals and hopping terms, including conjugate terms. "
     "This also holds when a query was interrupted or failed part-way: the next query is computed from the current "
     "definition, never from stale or half-updated data.",
     ["histories", "fault_sequences", "inputs"],
     "every history of edits and queries, every value of the parameters, every point at which a query is "
     "interrupted or runs out of memory",
     "Tests follow a few fixed edit sequences and never interrupt a query.",
     ["tbplas/builder/primitive.py", "tbplas/builder/base.py", "tbplas/cython/primitive.pyx", "tbplas/builder/overlap.py"],
     [("arrays rebuilt lazily when the definition changed", "tbplas/builder/primitive.py: sync_orb, sync_hop"),
      ("conjugate-normalised hopping table", "tbplas/builder/base.py: IntraHopping")],
     ["orbital and hopping arrays, counters, Hamiltonian, bands"],
     state=[("arrays and fingerprint", "cached numeric form of the definition", "tbplas/builder/primitive.py")])

prop("C16", "Supercells and samples always reflect their current definition",
     "After any sequence of vacancy, hopping and position-modifier changes to supercells, permitted changes of the "
     "underlying primitive cell and resets, the orbitals, hopping terms and Hamiltonian of a supercell or sample are "
     "those of the explicitly expanded model: every term once with its conjugate, vacancies removed, inter-supercell "
     "terms included. Rescaling, magnetic field and k-point modifications of a sample act on exactly these terms until "
     "they are reset. This also holds when a query was interrupted or failed part-way.",
     ["histories", "fault_sequences", "inputs"],
     "every history of edits, notifications and queries over several connected supercells, every interruption point "
     "of a query",
     "Tests use a few fixed models, without interruptions and nearly without edits after the first query.",
     ["tbplas/builder/super.py", "tbplas/builder/sample.py", "tbplas/builder/base.py", "tbplas/cython/super.pyx",
      "tbplas/cython/sample.pyx"],
     [("orbital indices rebuilt when the definition changed", "tbplas/builder/super.py: sync_array"),
      ("change notification from primitive cell to supercells and samples", "tbplas/builder/base.py: Observable"),
      ("array initialisation", "tbplas/builder/sample.py: init_orb_eng, init_orb_pos, init_hop")],
     ["orbital and hopping arrays and Hamiltonian of supercells and samples"])

prop("C17", "A model in use cannot be changed behind its users' back",
     "Once a primitive cell or supercell has been used to build a larger model, every operation that would change "
     "it is refused until it is explicitly unlocked, and a refused operation changes nothing. "
     "After an unlocked change is announced, or taken over by resetting every model built from it, all dependent models are brought up to date and the model is protected "
     "again for all of its users, in every order of creation, unlocking, change and announcement.",
     ["histories"],
     "every history of building, locking, unlocking, editing and announcing over a graph of dependent models",
     "Tests try one or two operations on one locked model.",
     ["tbplas/builder/base.py", "tbplas/builder/primitive.py", "tbplas/builder/super.py", "tbplas/builder/sample.py"],
     [("lock flag checked by every modifying operation", "tbplas/builder/base.py: Lockable/Observable"),
      ("subscribers notified", "tbplas/builder/base.py: update")],
     ["exceptions raised, definitions and derived arrays of the dependent models"])

prop("C18", "A refused operation leaves the model unchanged",
     "Operations on a primitive cell, supercell, inter-supercell hopping, hopping table or sample are refused for "
     "arguments documented as illegal, e.g. indices of orbitals that do not exist. If an operation fails because "
     "of illegal arguments or an invalid state, the definition of the model, everything derived from it and its "
     "ability to be edited further are exactly as before the call.",
     ["histories", "inputs", "fault_sequences"],
     "every operation with every kind of illegal argument, at every point of a history of legal operations",
     "Tests only check that the exception is raised, not what is left behind.",
     ["tbplas/builder/primitive.py", "tbplas/builder/base.py", "tbplas/builder/super.py", "tbplas/builder/sample.py"],
     [("arguments validated before the definition is touched", "tbplas/builder/*")],
     ["definition, arrays and Hamiltonian before and after a failed call"])

prop("C19", "A calculator gives the same answers fresh or reused, interrupted or not",
     "A calculation on a solver or analyser object that has already been used, in any order and with any options, "
     "on a model that may have been changed in between, returns what a freshly created object would return, and "
     "leaves the model, the configuration values that define the physics, the caller's arrays and results returned "
     "earlier unchanged. "
     "This includes calculations that follow one that was interrupted or ran out of memory part-way.",
     ["histories", "fault_sequences"],
     "every sequence of calculations and permitted model changes on shared objects, every interruption point",
     "Tests create a new object for each calculation.",
     ["tbplas/diagonal/base.py", "tbplas/diagonal/lindhard.py", "tbplas/diagonal/magnetic.py", "tbplas/diagonal/z2.py",
      "tbplas/tbpm/solver.py", "tbplas/tbpm/analysis.py"],
     [("work matrices cleared between k-points", "tbplas/diagonal/base.py"),
      ("cached states and energies", "tbplas/diagonal/magnetic.py, tbplas/diagonal/lindhard.py")],
     ["return values; model, configuration and argument contents before and after"])

prop("C20", "Measured times never go wrong when the system clock is adjusted",
     "The elapsed times reported per slot and in total are the time that actually passed between the matching start "
     "and stop calls, summed over all of them, and never negative, even when the system clock is stepped forwards "
     "or backwards, runs at different offsets on different processes, or start and stop calls of several slots are "
     "interleaved. "
     "Stopping a slot that is not running and reporting while one is running are refused and disturb nothing.",
     ["histories", "fault_sequences"],
     "every sequence of start, stop and report calls over several slots, every clock step in between",
     "Tests use the real clock, which never steps during a test.",
     ["tbplas/utils.py"],
     [("start times and accumulated usage per slot", "tbplas/utils.py: Timer")],
     ["reported times versus simulated elapsed time"])

# ---- pure functions: listed, not applicable for this technique -------------------------------------------------
prop("C30", "Coordinate and lattice conversions are exact inverses of each other",
     "Converting between fractional and Cartesian coordinates, lattice parameters and vectors, and direct and "
     "reciprocal lattices are mutually inverse for every non-degenerate lattice.",
     ["inputs"], "every lattice and coordinate",
     "Tests use fixed lattices.", ["tbplas/base/lattice.py"],
     [("conversion functions", "tbplas/base/lattice.py")], ["return values"])
prop("C31", "Two-centre and spin-orbit matrix elements respect hermiticity and symmetry",
     "Slater-Koster hopping terms between any two orbitals and spin-orbit matrix elements are Hermitian and "
     "transform correctly under exchange of the orbitals and inversion of the bond.",
     ["inputs"], "every bond direction and orbital pair",
     "Tests compare a few fixed bonds.", ["tbplas/builder/advanced.py", "tbplas/cython/atom.pyx"],
     [("Slater-Koster and SOC tables", "tbplas/builder/advanced.py")], ["return values"])
prop("C32", "Band structures of the material library match the published models",
     "The primitive cells offered for graphene, phosphorene, antimonene and transition-metal dichalcogenides have "
     "the orbitals and hopping terms of the published parameterisations.",
     ["inputs"], "every material, option and strain value",
     "Tests compare a few k-points.", ["tbplas/materials"],
     [("parameter tables", "tbplas/materials")], ["primitive cells returned"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
