#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the list of claimed checks below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CLAIMED = {
  "C19": ("symbolic index-range analysis", "every path of every matrix, vector and tensor helper is walked with symbolic sizes: each element, column, view and callee precondition must follow from the sizes the path has established (loop bounds, asserts, SetSize, own constructors); what substitution does not settle is enumerated over all small sizes; the HDF5 readers must check dimensions and the sizes of arrays read back"),
  "C09": ("flow-sensitive alias analysis of views, and symbolic execution to normal forms", "every function of the program with read-only inputs is walked with sets of what each pointer, reference and view refers to; a write (direct, by a modifying method, or by a callee) to memory that belongs to a read-only input only is reported; the assembly routines' normal forms must leave every input at its initial content"),
  "C14": ("ownership analysis: path-sensitive points-to walk with destructor histories", "every function of the built sources, and every (constructor or method, then destructor) history, is walked over a model of the heap: what is allocated must be freed, returned or stored where a destructor or the caller finds it; nothing is freed twice, freed in the wrong form, freed though borrowed, or followed after it was freed"),
  "C18": ("flow-sensitive abstract interpretation over side labels", "every routine that touches a paired record, a paired name or the vertex map is interpreted with labels for the side a value stems from (per branch, helpers inlined, constant loops unrolled); recording, looking up or comparing a value of one side with the other is reported"),
  "C20": ("symbolic effect walk of the assembly loops and closed-form normal forms of the mixed local matrices", "every assembly loop is walked with helpers inlined; the space, element and side of each list of unknowns is part of its term and compared with those of the local matrix or vector it is used for; local matrices between different spaces are checked to number test functions by rows and trial functions by columns"),
  "C15": ("taint analysis over control-flow graphs and comparison of collective sequences per class of ranks", "values that differ between processes are tracked from rank queries and rank-guarded statements to the guards, loop bounds, early exits and arguments of every collective; the sequences of collectives on the paths of each class of ranks are compared; receive buffers are compared with counts"),
  "C03": ("symbolic round trip: effect walk of each saver into a symbolic file and of its loader on that file", "every saver/loader pair is walked with one generic index per loop range; names, element types, shapes, fields and indices of what is loaded are compared with what was saved, and nothing non-empty may be left out"),
  "C16": ("effect analysis over control-flow graphs", "every routine that can return normally must do something or answer from what it is given; settings nobody reads, untested casts of arguments and unused outputs are reported"),
  "C17": ("symbolic effect walk of the look-ups, and queries over all look-up sites", "every look-up instantiation is walked with creation off; the stored and forced options are followed to their node; the settings that must be present are asked for in the form that stops"),
  "C21": ("symbolic effect walk and algebraic identities", "the value stored by each sampling routine is extracted per path and its ends compared with the range algebraically"),
 "C06": ("symbolic effect walk of constructors and setters", "the name, index and storage tables every concrete problem's constructor leaves are compared with the declared count and with each other; setters reached by virtual dispatch are walked from that state"),
 "C07": ("symbolic effect walk of constructors and setters", "the boundary tables every concrete problem leaves after construction and after each path of its setters are compared; the solvers' functions that take a problem over are walked for a generic boundary"),
 "C10": ("abstract interpretation to closed-form normal forms with side labels", "every block and residual part of every face and interface routine is brought to normal form and each product checked for values of the wrong side; row and column ranges are matched with the side of the block"),
 "C26": ("abstract interpretation to closed-form normal forms", "the interface routine's blocks are compared with the face routine's, the second element reached through the second transformation"),
 "C08": ("abstract interpretation with trace partitioning over configurations", "every assembly and evaluation routine of the integrators is interpreted once per configuration (which optional coefficients are set, which side exists, ...) for symbolic sizes and contents; the closed form of each output must not mention prior output or work storage"),
 "C11": ("abstract interpretation to closed-form normal forms", "full integration and single-point contribution are brought to normal form and compared term by term"),
 "C12": ("abstract interpretation to closed-form normal forms and symbolic differentiation", "the normal form of the term is differentiated with respect to the state and compared with the normal form of the assembled derivative"),
 "C13": ("abstract interpretation to closed-form normal forms and side exchange", "the blocks of the two sides are compared after exchanging the sides, and after taking out the test functions"),
 "C01": ("typestate dataflow over the control-flow graph", "every open/create site in every function is followed along all CFG paths; helpers that open, return or close handles are summarised"),
 "C05": ("unmatched-value path exploration over the control-flow graph", "every dispatch with two or more alternatives is simulated with a value that matches none; value sets of enumeration fields are computed flow-insensitively"),
 "C04": ("typestate dataflow with function summaries", "every Start/Stop site on a timing profile is followed along all CFG paths; helpers are summarised"),
 "C02": ("failure-propagation dataflow over the control-flow graph", "for each HDF5 call site the run in which that call fails is followed along all CFG paths with a sign abstraction"),
}
PENDING = "the check for this property is still being built"
NA = {
 "C22": "asserts an error decay over reduced-basis sizes for arbitrary data; depends on floating-point singular values and conditioning, which no static argument over the source bounds",
 "C23": "asserts a convergence order in mesh size; a numerical-analysis statement about discretisation error, not decidable from program structure",
 "C24": "coincidence of vertices and quadrature points depends on run-time mesh coordinates read from files",
 "C25": "termination and accuracy of iterative solvers depend on the spectrum of run-time matrices",
}
props = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
m = dict(version=1, setup_cmd="python3 -m sa.front", checks=[], not_applicable=[])
for p in props:
    if p in CLAIMED:
        t, n = CLAIMED[p]
        c = "python3 -m sa.%s" % p.lower()
        m["checks"].append(dict(property=p, quick_cmd=c, thorough_cmd=c, evidence_file="evidence/%s.json" % p,
                                technique="static analysis: " + t, level="other", level_note=n))
    else:
        m["not_applicable"].append(dict(property=p, reason=NA.get(p, PENDING)))
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
