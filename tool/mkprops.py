#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech],
                               state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               observe_at=list(observe), hook_needed=None)))
H5 = ["include/hdf5_utils.hpp", "src/hdf5_utils.cpp", "src/hyperreduction_integ.cpp",
      "src/rom_element_collection.cpp", "src/component_topology_handler.cpp"]
p("C01", "Save and load routines release every HDF5 object they open",
  "Whenever a routine that saves to or loads from an HDF5 file returns, every file, group, dataset, attribute, dataspace and datatype it opened itself has been closed exactly once, on every way out of the routine including early returns and skipped loop iterations. No object is used or closed again after it has been closed.",
  ["inputs", "histories"], "all stored contents (present, absent, already set up), all branches and loop iteration counts",
  "Leaked HDF5 objects keep a file locked or exhaust ids only after many calls; the tests do one round trip and never count open objects.",
  H5 + ["src/rom_handler.cpp", "src/rom_nonlinearform.cpp", "src/sample_generator.cpp"],
  [("open/close pairing around each access", "hdf5_utils.cpp, *Save*/*Load*/Read*/Write* routines")],
  observe=["number of open HDF5 ids after a call returns"])
p("C02", "A failed HDF5 operation is detected before its result is used",
  "Every attempt to open, create, read, write or close an object in an HDF5 file has its success checked, and the program stops with an error when it failed. Data from a failed open or read is never used, and a failed write never passes for a successful save.",
  ["inputs", "fault_sequences"], "every file content (missing entries, wrong types, read-only files) and every failing call",
  "The tests only read files they have just written correctly; no test makes one library call fail.",
  H5 + ["src/rom_handler.cpp", "src/rom_nonlinearform.cpp"],
  [("status assertions after each library call", "hdf5_utils.cpp and the save/load routines")])
p("C03", "What is saved is read back under the same names, types and fields",
  "For every kind of object that can be saved to a file (sparse and block matrices, dense matrices and tensors, sample sets for reduced quadrature, component ports, reduced-order elements), the loader looks for exactly the entries the saver writes, with the same element type and shape convention, and puts each one back into the field or index it was taken from. No entry the loader requires is left unwritten.",
  ["inputs"], "all objects of each kind, including empty blocks and all integrator kinds",
  "The round-trip tests cover dense matrices, a few datasets and one port file; the other pairs, and every branch on kind or emptiness, are never exercised.",
  H5 + ["src/rom_nonlinearform.cpp", "src/rom_interfaceform.cpp", "src/rom_handler.cpp", "src/linalg_utils.cpp"],
  [("paired read/write routines", "hdf5_utils.cpp, EQPElement::Save/Load, ROMLinearElement::Save/Load, port data read/write")])
p("C04", "Every timed section that is opened is closed",
  "In every routine that records timings, each named section that is started is stopped again before the routine returns, on every path through it, and no section is started while it is already running or stopped when it is not running. Reports on timings therefore never abort because of an unbalanced section.",
  ["inputs", "configurations"], "all paths through the timed routines",
  "Timings are only checked when printed, which no test turns on, and only the paths taken by the tests' inputs are started and stopped.",
  ["include/etc.hpp", "src/interface_form.cpp", "src/interfaceinteg.cpp", "src/rom_interfaceform.cpp", "src/rom_nonlinearform.cpp", "src/steady_ns_solver.cpp"],
  [("start/stop pairs", "routines holding a time profiler")])
p("C05", "An unrecognised choice is rejected, never silently ignored",
  "Wherever the program selects among named or enumerated alternatives (problem, boundary, integrator, topology, solver, file or basis type, ...), a value that matches none of the alternatives stops the program with an error before any result depends on it. No recognised alternative falls through into the handling of another one.",
  ["configurations", "inputs"], "all option values, including misspelt ones and enumerators added later",
  "Tests run only the recognised values of a few options.",
  ["src/parameterized_problem.cpp", "src/hyperreduction_integ.cpp", "src/hdf5_utils.cpp", "src/component_topology_handler.cpp", "src/topology_handler.cpp", "src/rom_handler.cpp", "src/sample_generator.cpp", "src/main_workflow.cpp", "src/multiblock_solver.cpp"],
  [("error in the final else/default branch", "option dispatch chains and switches")])
p("C06", "Problem parameters bind one-to-one by name and by index",
  "For every parameterised problem, each parameter name designates exactly one index below the declared parameter count, every index designates exactly one stored quantity, the one the name says, and no two names or indices share one. Setting a parameter by name and setting it by index therefore change the same quantity and no other, and every declared parameter can be set.",
  ["inputs", "configurations"], "every problem type and every parameter name and index",
  "No test that can run here constructs the problems; the repository's own test samples a handful of parameters of some of them.",
  ["src/parameterized_problem.cpp", "include/parameterized_problem.hpp"],
  [("name-to-index map and index-to-storage table filled by each problem", "constructors in parameterized_problem.cpp")])
p("C07", "Every declared boundary has a type and the data that type needs",
  "For every parameterised problem, the lists of boundary attributes, boundary types and boundary data functions describe the same number of boundaries, every boundary gets a type, and a boundary whose type needs prescribed data has a data function. No list is read or written past its end.",
  ["configurations"], "every problem type and every boundary index",
  "The problems are only run with libROM present, and then only for some boundaries; a missing function pointer or short list shows up only when that boundary is assembled.",
  ["src/parameterized_problem.cpp", "include/parameterized_problem.hpp"],
  [("boundary tables filled by each problem", "constructors in parameterized_problem.cpp")])
p("C08", "An assembly or evaluation result does not depend on earlier calls",
  "The result of assembling or evaluating an element, face, interface or boundary contribution depends only on the arguments and the configured coefficients of that call, never on what the output argument or the object's work storage held before. Routines that add to an existing result change it only by adding.",
  ["histories"], "all sequences of calls on the same object with differing elements, sizes and boundary/interior faces",
  "Tests build a fresh object and call it on one mesh, so stale work storage is never exposed.",
  ["src/interfaceinteg.cpp", "src/hyperreduction_integ.cpp", "src/nonlinear_integ.cpp", "src/dg_bilinear.cpp", "src/dg_mixed_bilin.cpp", "src/dg_linear.cpp"],
  [("size and clear outputs and work storage before accumulating", "start of each assembly routine")])
p("C09", "Assembly and evaluation never modify their input state",
  "Computing a residual, matrix or boundary contribution leaves the solution, coefficient and basis data passed to it unchanged: whatever is passed as read-only input has the same contents after the call as before, even where the routine works on a view of that memory.",
  ["inputs", "histories"], "all inputs and all routines taking read-only state",
  "Tests compare outputs and do not re-examine inputs after the call.",
  ["src/interfaceinteg.cpp", "src/hyperreduction_integ.cpp", "src/nonlinear_integ.cpp", "src/interface_form.cpp", "src/linalg_utils.cpp", "src/block_smoother.cpp"],
  [("views onto input vectors used read-only", "UseExternalData / const_cast sites")])
p("C10", "Interface coupling keeps the two sides apart",
  "In the coupling of two neighbouring subdomains, everything attributed to one side is computed from that side's element, transformation, point and state, and the block coupling test side i with trial side j is built from test functions of side i and trial functions of side j and is stored with the rows of side i and the columns of side j.",
  ["inputs"], "all interface integrators, element pairs (including different orders on the two sides), dimensions and states",
  "The tests use the same element type and mesh size on both sides and check only one integrator's derivative.",
  ["src/interfaceinteg.cpp", "src/interface_form.cpp", "src/hyperreduction_integ.cpp", "src/dg_bilinear.cpp", "src/dg_mixed_bilin.cpp", "src/nonlinear_integ.cpp"],
  [("per-side work arrays and 2x2 block layout", "interface integrators and forms")])
p("C11", "Reduced quadrature sums the same terms as the full integration",
  "For every nonlinear term that supports reduced quadrature, the contribution computed for a single quadrature point with a given weight contains exactly the terms that the full integration adds at that point, with the given weight in place of the rule's weight. Summing over all points with the rule's own weights therefore reproduces the full result, for the term and for its derivative, also on the precomputed fast path.",
  ["inputs", "configurations"], "all states, points, weights, coefficients present or absent, interior or boundary faces",
  "The tests that compare the two need libROM or use one coefficient configuration; the fast paths are not run at all here.",
  ["src/hyperreduction_integ.cpp", "src/interfaceinteg.cpp"],
  [("paired full/point-wise/fast routines of each integrator", "hyperreduction_integ.cpp, interfaceinteg.cpp")])
p("C12", "The derivative of a nonlinear term is built from that term",
  "For every nonlinear term, the assembled derivative contains a contribution for each way the term depends on the state and no other: same coefficients, weight, sign and basis functions, with one occurrence of the state replaced by the trial function.",
  ["inputs", "configurations"], "all states, coefficients, interior and boundary faces",
  "Finite-difference tests sample random states for one coefficient configuration and cannot see point-wise and fast variants.",
  ["src/hyperreduction_integ.cpp", "src/interfaceinteg.cpp", "src/nonlinear_integ.cpp"],
  [("paired vector/gradient routines", "nonlinear integrators")])
p("C13", "What leaves one side of a face enters the other",
  "For conservative face fluxes, the contribution added to one side of an interior face or interface is the exact opposite of that added to the other side, tested with the respective side's functions; and couplings that are symmetric in the two sides treat both sides with the same terms and factors.",
  ["inputs"], "all states, faces and coefficients",
  "Tests check derivatives, not balance; a factor wrong on one side is still consistently differentiated.",
  ["src/interfaceinteg.cpp", "src/dg_bilinear.cpp", "src/dg_mixed_bilin.cpp"],
  [("paired side-1/side-2 updates", "face and interface integrators")])
p("C14", "Objects own what they allocate and free it exactly once",
  "Whatever an object allocates for itself and keeps is freed when the object is destroyed, and whatever a routine allocates for its own use is freed or handed over by the time it returns, on every path. Nothing is freed twice or used after it was freed.",
  ["histories", "inputs"], "all construction, use and destruction histories and all paths",
  "Leaks and double frees do not fail a test unless they crash it.",
  ["src/component_topology_handler.cpp", "src/topology_handler.cpp", "src/rom_element_collection.cpp", "src/block_smoother.cpp", "src/interface_form.cpp", "src/interfaceinteg.cpp", "src/hyperreduction_integ.cpp", "include/linalg_utils.hpp"],
  [("destructors and clean-up helpers", "owning classes")])
p("C15", "Every process takes part in every collective operation",
  "Each collective communication the program starts is reached by all processes alike: whether it is reached, how often, and with which counts never depends on the process's own rank or on data only one process has.",
  ["schedules", "configurations"], "all process counts and ranks",
  "The tests run on a single process.",
  ["src/input_parser.cpp", "include/etc.hpp", "src/rom_interfaceform.cpp", "src/rom_nonlinearform.cpp", "src/sample_generator.cpp", "src/main_workflow.cpp"],
  [("collectives outside rank-dependent branches", "MPI call sites")])
p("C16", "An unsupported operation stops with an error",
  "Calling an operation that a class does not provide, or provides only for other settings, stops the program with an error message; it never returns as if it had been carried out. This holds for every operation a base class leaves to its subclasses.",
  ["programs", "inputs"], "all classes and operations, including those no current caller combines",
  "Tests call only what is supported.",
  ["src/hyperreduction_integ.cpp", "src/interfaceinteg.cpp", "src/interface_form.cpp", "include/interfaceinteg.hpp", "include/topology_handler.hpp", "include/multiblock_solver.hpp"],
  [("error-raising default bodies", "base-class virtual functions")])
p("C17", "Required settings must be present; look-ups never change the settings",
  "Asking for a required setting that is absent stops the program; asking for an optional one yields the given default exactly when it is absent and the stored value otherwise. Looking settings up never creates, removes or changes any of them.",
  ["inputs", "histories"], "all input files, keys (nested, missing at any level) and look-up sequences",
  "Tests look up a handful of keys in one file.",
  ["include/input_parser.hpp", "src/input_parser.cpp"],
  [("node look-up with explicit creation flag", "InputParser")])
p("C18", "Port and interface records keep the two sides apart",
  "In the description of how subdomains are connected (ports, interfaces, vertex and boundary-element pairings, attribute maps), everything recorded or looked up for the first side comes from the first side's component, mesh and attribute, and likewise for the second; the pairing has the same direction wherever it is built, stored or used.",
  ["inputs"], "all component layouts, port definitions and meshes, in particular with different components on the two sides",
  "The tests join identical components, where swapping the two sides goes unnoticed.",
  ["src/component_topology_handler.cpp", "src/topology_handler.cpp", "src/interface_form.cpp", "src/rom_element_collection.cpp", "include/topology_handler.hpp"],
  [("paired side-1/side-2 fields", "port and interface structures")])
p("C19", "Dense and sparse helpers reject operands whose sizes do not match",
  "Every matrix, vector and tensor helper verifies that its operands' sizes fit together, or that an index or range lies within its operand, before reading or writing an element, and stops the program otherwise. No helper reads or writes outside an operand.",
  ["inputs"], "all operand sizes, index lists and ranges",
  "Tests only pass matching sizes.",
  ["src/linalg_utils.cpp", "include/linalg_utils.hpp", "src/block_smoother.cpp", "src/hdf5_utils.cpp"],
  [("size assertions at entry", "linalg_utils.cpp, block_smoother.cpp")])
p("C20", "Global matrices put test functions in rows and trial functions in columns",
  "Wherever a local matrix is added to a global one, its rows go to the unknowns of the test space and its columns to those of the trial space, on the element, face side or subdomain the local matrix was computed for.",
  ["inputs"], "all meshes, spaces (in particular different trial and test spaces) and faces",
  "Tests use the same space on both sides, so a transposed insertion goes unnoticed.",
  ["src/interface_form.cpp", "src/dg_mixed_bilin.cpp", "src/rom_nonlinearform.cpp", "src/rom_interfaceform.cpp"],
  [("index lists passed with each local matrix", "form assembly loops")])
p("C21", "Sampled parameter values lie in the requested range and reach its ends",
  "Every sampled value of a parameter, by index or at random, linear or logarithmic, lies between the requested minimum and maximum; the first index gives the minimum and the last gives the maximum. An index outside the sample is rejected.",
  ["inputs"], "all ranges, sample sizes, indices and random draws",
  "No test samples parameters here.",
  ["src/parameter.cpp", "include/parameter.hpp", "src/sample_generator.cpp"],
  [("index check and interpolation formula", "parameter.cpp")])
p("C22", "A reduced-order solution converges to the full-order solution",
  "As the number of basis vectors and the quality of the reduced quadrature increase, the reduced-order solution of each problem approaches the full-order one.",
  ["inputs"], "all problems, meshes and parameters", "The workflow tests check a few points with a tolerance.",
  ["src/rom_handler.cpp", "src/main_workflow.cpp"], [("projection", "rom_handler.cpp")])
p("C23", "Discretisations converge at the expected order",
  "Solving a problem with known solution on refined meshes gives errors decreasing at the order of the chosen elements.",
  ["inputs"], "all problems and meshes", "MMS tests sample a few meshes and need libROM.",
  ["src/poisson_solver.cpp", "src/stokes_solver.cpp", "src/interfaceinteg.cpp"], [("DG discretisation", "solvers and integrators")])
p("C24", "Matching interfaces pair geometrically coincident faces",
  "Each pair of faces identified across two subdomains coincides in space after the subdomains have been placed, up to a tolerance.",
  ["inputs"], "all meshes and placements", "Tests compare two topologies on one mesh.",
  ["src/component_topology_handler.cpp", "src/topology_handler.cpp"], [("vertex matching by coordinates", "port construction")])
p("C25", "Iterative solves end with a converged solution or report failure",
  "Every linear and nonlinear solve either meets its tolerance or is reported as not converged.",
  ["inputs", "configurations"], "all problems, tolerances and solver options", "Tests use well-conditioned problems.",
  ["src/steady_ns_solver.cpp", "src/poisson_solver.cpp", "src/linalg_utils.cpp"], [("convergence flags", "solvers")])
p("C26", "Interface coupling adds what an interior face adds",
  "For a term that is assembled both on the interior faces of a mesh and on the interfaces between subdomains, the contribution to each side's residual and each block of the matrix is the same on an interface as on an interior face between the same two elements. Splitting a domain along its faces therefore leaves the discrete equations unchanged.",
  ["inputs"], "all element pairs, orders, coefficients, penalties and states",
  "The tests look at convergence rates, which survive a wrong penalty or average, and at derivatives, which follow the wrong term.",
  ["src/interfaceinteg.cpp", "src/dg_bilinear.cpp", "src/dg_mixed_bilin.cpp", "src/nonlinear_integ.cpp"],
  [("pairs of face and interface routines", "integrators with both")])
with open(__file__.rsplit("/", 2)[0] + "/properties.jsonl", "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        assert x["statement"].count(". ") <= 2, x["id"]
        f.write(json.dumps(x) + "\n")
print(len(P))
