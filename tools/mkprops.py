#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that the long texts stay readable)."""
import json, os
P = []
def prop(id, title, statement, over, quant, why, files, mech, state=None, observe=None, hook=None):
    P.append(dict(id=id, title=title, statement=" ".join(statement.split()),
                  quantifier=dict(over=over, text=" ".join(quant.split())),
                  why_tests_cant=" ".join(why.split()),
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                               state=[dict(name=n, meaning=m, where=w) for n, m, w in (state or [])],
                               observe_at=observe or [], hook_needed=hook)))

S = "solidspy/"
prop("C01", "A folder analysis answers for exactly the stored model, or raises",
 """A complete analysis of a folder either raises or returns the displacements (and, on request, the
 nodal strains and stresses) of exactly the model its four text files held, each file taken whole at
 one instant during that call. Failed opens and read errors surface as errors, short or interrupted
 reads change nothing, and no torn, replaced or look-alike file and no earlier analysis ever makes it
 use partial, stale or mixed contents. It leaves the folder unchanged and no file open.""",
 ["inputs", "fault_sequences", "histories"],
 """All well-posed plane (quad4, tri3, tri6, quad9), truss and spring models and all textual layouts of
 them, all sequences of analyses with the files rewritten, torn or replaced between and during them,
 and all failing, short and interrupted system calls while they are read.""",
 """No test reads a model from disk at all (readin and solids_GUI are only imported); a test could only
 sample intact files on a healthy disk, not every read fault and replacement instant.""",
 [S+"preprocesor.py", S+"solids_GUI.py", S+"assemutil.py", S+"postprocesor.py"],
 [("readin: numpy.loadtxt per file, errors propagate", S+"preprocesor.py readin"),
  ("solids_GUI: one straight pass read, number, assemble, solve, complete, recover", S+"solids_GUI.py solids_GUI")],
 [("input files", "nodes.txt, mater.txt, eles.txt, loads.txt in the folder", S+"preprocesor.py readin")],
 ["value or exception of solids_GUI(folder=...) and readin(folder)", "bytes in the folder", "open descriptors"])

prop("C02", "An aborted call surfaces its error and leaves no trace",
 """When a computation is aborted part-way - by a user interrupt, a failed memory allocation, a failing
 linear solver, an error in a user-supplied routine or an invalid model - that very error reaches the
 caller. The caller's arrays, the process-wide settings and the open files are then as they were before
 the call. Repeating the call, or making any other call, gives the result a fresh process would give.""",
 ["crash_points", "fault_sequences", "inputs"],
 """Every point of every non-plotting public computation at which an interrupt can be delivered, every
 array allocation that can fail, every solver or callback invocation that can raise, and every follow-up
 sequence of calls.""",
 """The tests never abort anything: the quantifier is over all abort points of all calls (thousands of
 points even for a four-element mesh), each followed by further calls.""",
 [S+"assemutil.py", S+"femutil.py", S+"uelutil.py", S+"gaussutil.py", S+"solutil.py", S+"postprocesor.py", S+"blochutil.py", S+"preprocesor.py", S+"solids_GUI.py"],
 [("no module-level mutable state; all accumulators are locals", "all computing modules"),
  ("arguments are only read or copied before change", S+"assemutil.py eqcounter"),
  ("lookups translate only unknown keys into ValueError", S+"femutil.py eletype, "+S+"assemutil.py ele_fun")],
 [("caller arrays", "nodes, elements, mats, loads, constraints handed in", "arguments"),
  ("process state", "numpy error state, RNG state, cwd, warnings filters, descriptors", "process")],
 ["exception object at the caller", "bytes of the arguments", "results of later calls"])

prop("C03", "Results depend only on the arguments, never on call history",
 """The result of any non-plotting computation is determined by the present contents of its arguments:
 it is the same as in a fresh process whatever calls, successful or failed, on the same or other models
 came before. Editing a model in place between calls, or overwriting arrays returned by earlier calls,
 influences later results only through the arguments those calls are given. No call changes its
 arguments, except the documented in-place marking of boundary conditions.""",
 ["histories", "inputs"],
 """All finite sequences of public computations interleaved with in-place edits of the caller's arrays,
 overwriting of returned arrays, failing calls, and dropping and re-creating of arrays.""",
 """Every test makes one or two calls on one model and never repeats a call after an edit; hidden state
 shows only in particular histories (same object edited, same shape different content, N-th repetition).""",
 [S+"assemutil.py", S+"femutil.py", S+"uelutil.py", S+"gaussutil.py", S+"solutil.py", S+"postprocesor.py", S+"blochutil.py", S+"preprocesor.py", S+"solids_GUI.py"],
 [("quadrature tables, interpolation arrays and element matrices are built afresh in each call", S+"gaussutil.py, "+S+"uelutil.py"),
  ("constraints are copied before numbering", S+"assemutil.py eqcounter")],
 None, ["returned values", "bytes of the arguments after each call"])

prop("C04", "Concurrent calls from several threads do not influence each other",
 """Non-plotting computations may run at the same time in several threads of one process, on different
 models or on the same unmodified arrays. Whatever the interleaving, every call returns the value, or
 raises the error, that it would have returned or raised alone in a fresh process, all calls finish, and
 afterwards the settings of the process (streams, filters, working directory, number formats) are as before.""",
 ["schedules", "inputs"],
 """All interleavings, at the granularity of bytecode instructions, of two or more threads each making a
 sequence of public computations, including calls that fail and user routines that yield in mid-assembly.""",
 """The tests are single-threaded; no test run can reach even one interleaving.""",
 [S+"assemutil.py", S+"femutil.py", S+"uelutil.py", S+"gaussutil.py", S+"solutil.py", S+"postprocesor.py", S+"blochutil.py", S+"preprocesor.py", S+"solids_GUI.py"],
 [("no shared mutable module state: re-entrancy by construction", "all computing modules")],
 None, ["return value or exception of each call in each thread"])

prop("C05", "User element routines are asked once per element and summed as answered",
 """Assembling with a user-supplied element routine calls it exactly once per element with that element's
 node coordinates and material row, and both the sparse and the dense assembler return, for stiffness
 and mass, the sum of its answers as they stood when it returned them, scattered to the unconstrained
 equations. This holds however the routine behaves in between: reusing its output buffers, overwriting
 the coordinates it received, starting other assemblies, or letting other threads assemble. The
 operator for user elements follows the user's degree-of-freedom counts in the same way, and an error
 raised by any user routine reaches the caller unchanged.""",
 ["schedules", "fault_sequences", "inputs"],
 """All meshes, constraint patterns and degree-of-freedom counts, all element routines with state of
 their own, all points at which a routine raises, re-enters or yields, dense and sparse assembly.""",
 """One test assembles one mesh with a stateless routine of ones, densely; nothing exercises stateful,
 failing, re-entrant or concurrent routines, and no mesh with constraints.""",
 [S+"assemutil.py"],
 [("retriever hands out a private coordinate copy and calls uel once", S+"assemutil.py retriever"),
  ("entries are copied as scalars before the next call", S+"assemutil.py sparse_assem, dense_assem"),
  ("DME consults ndof_el per element", S+"assemutil.py DME")],
 None, ["call log of the routine", "returned matrices and operator"])

prop("C06", "A solution out of equilibrium is never reported silently",
 """Whatever displacement vector the linear solver hands back to a complete analysis - wrong, not finite,
 stale, or that of a singular model - if it does not balance the applied loads to a relative accuracy of
 1e-3 the run tells the user that the system is not in equilibrium, or raises. If it balances them to
 1e-9 no such message appears, whatever the units of the model.""",
 ["fault_sequences", "inputs"],
 """All models in any unit system (stiffness and load magnitudes over 20 decades), all faults of the
 solver in one or many components, in the file-driven and the dictionary-driven workflow.""",
 """No test runs either workflow, and a healthy solver never exercises the check; it must hold for every
 fault and every scale.""",
 [S+"solids_GUI.py", S+"solutil.py"],
 [("residual test after static_sol", S+"solids_GUI.py solids_GUI, solids_auto")],
 None, ["standard output, warnings and exceptions of the run", "returned displacements"])

prop("C07", "Echo and figure files are complete or the call raises",
 """When a call that writes model echoes or saves figures returns normally, every file it was asked for
 holds its complete, correct contents, whatever was in the file before; when any open, write or close of
 those files fails, the call raises. Neither success, failure nor a crash at any instant changes the
 model input files or any other file.""",
 ["fault_sequences", "crash_points", "histories"],
 """All failing, short and interrupted opens, writes and closes and full disks, all crash instants, all
 sequences of writes over earlier (also longer, torn) files, all models.""",
 """No test writes a file; a healthy disk cannot show that errors are not swallowed.""",
 [S+"preprocesor.py", S+"postprocesor.py"],
 [("echomod: numpy.savetxt per file, errors propagate", S+"preprocesor.py echomod"),
  ("savefig after drawing, errors propagate", S+"postprocesor.py plot_node_field, plot_truss, tri_plot")],
 None, ["value or exception", "bytes of all files in the folder"])

prop("C08", "Results ignore the environment and leave it untouched",
 """The results of a computation, and its printed report apart from the durations, are the same under
 every wall clock (jumping either way or standing still), hash seed, random-generator state, working
 directory, locale setting, interpreter option (optimisation, development mode), number of processors, kind of console and
 content of uninitialised memory. A call leaves the global random
 generators, numpy error state and print options, warning filters, environment, working directory,
 signal handlers and standard streams as it found them, and writes no file but those it is asked for.""",
 ["configurations", "schedules", "inputs"],
 """All environments of the listed kinds, including clock jumps between any two clock readings and all
 initial contents of allocated arrays, for all public non-plotting computations.""",
 """Tests run in one environment; a value that leaks from uninitialised memory, time or hashing agrees
 with itself there most of the time.""",
 [S+"solids_GUI.py", S+"postprocesor.py", S+"preprocesor.py", S+"assemutil.py", S+"gaussutil.py", S+"femutil.py", S+"uelutil.py", S+"blochutil.py", S+"solutil.py"],
 [("the clock is only read for the printed durations", S+"solids_GUI.py"),
  ("numpy.empty results are fully overwritten", S+"postprocesor.py principal_dirs"),
  ("sets are used only for unique node numbers", S+"preprocesor.py boundary_conditions, loading")],
 None, ["returned values", "standard output", "process-wide settings before and after"])

prop("C09", "The folder the user chose is the folder that is analysed",
 """When no folder is passed, the analysis uses the folder chosen in the dialog; if the dialog is missing,
 fails or is dismissed it asks at the prompt and uses the folder typed there, absolute or relative, with
 or without trailing separator, the empty answer meaning the current one. An interrupt or exit request
 in the dialog, and an interrupt or end of input at the prompt, ends the call with that exception.
 A folder that holds no complete model is an error, never a reason to analyse another one.""",
 ["fault_sequences", "histories", "inputs"],
 """All behaviours of the dialog (answers, cancel, missing, failing, interrupted) and of the prompt (any
 spelling, end of input, interrupt), over sequences of runs among several folders and working
 directories.""",
 """No test calls the dialog path: it needs a display and a person. The cases are behaviours of another
 party, and combinations over repeated runs.""",
 [S+"preprocesor.py", S+"solids_GUI.py", S+"__main__.py"],
 [("easygui dialog, fallback to the prompt", S+"preprocesor.py initial_params"),
  ("input file paths built from the folder", S+"preprocesor.py readin")],
 None, ["result or exception of solids_GUI()", "which folder's files were opened"])

prop("C10", "Each plot shows its own field in its own windows only",
 """A plotting call shows exactly the field (or truss) it was given, one window per component, in the
 windows it names - replacing what they showed before - or, when it names none, in new windows of its
 own. It draws in no other window, whatever windows the session had opened, closed, renumbered or drawn
 in before and even when an earlier plot failed part-way, and changes none of its arguments.""",
 ["histories", "fault_sequences", "inputs"],
 """All sequences of nodal-field plots, truss plots and complete analyses with contours, interleaved with
 the user's own opening, drawing in, activating and closing of windows and with plots that fail (bad
 data, save errors), for all 2D element types and contour and pseudo-colour plots.""",
 """No test plots anything; window reuse shows only in particular session histories.""",
 [S+"postprocesor.py", S+"solids_GUI.py"],
 [("window chosen by title, or by a number past the open ones", S+"postprocesor.py plot_node_field"),
  ("one figure per field component", S+"postprocesor.py fields_plot, plot_node_field")],
 [("pyplot registry", "process-wide list of open figures and the current one", "matplotlib.pyplot")],
 ["open figures, their titles, axes and drawn data"])

# ---------------------------------------------------------------- pure functions of their inputs
pure = """Holds or fails for a given input alone: the quantifier is over all real-valued inputs and the
 tests evaluate a handful of unit-sized, axis-aligned cases."""
prop("C11", "Element stiffness is symmetric, positive semi-definite, rigid-body free",
 """Every element stiffness matrix is symmetric and positive semi-definite and its null space is exactly the
 rigid-body motions of the element, in every position, orientation, size and admissible material.""",
 ["inputs"], "All admissible coordinates and material parameters for every element routine.", pure,
 [S+"uelutil.py", S+"femutil.py"], [("B^T C B quadrature; local-to-global rotations", S+"uelutil.py")])
prop("C12", "Element mass matrices conserve mass",
 """Every consistent mass matrix is symmetric, positive semi-definite, of the stiffness's shape and gives
 each rigid translation the element's total mass.""",
 ["inputs"], "All admissible coordinates and material parameters for every element routine.", pure,
 [S+"uelutil.py"], [("H^T H quadrature", S+"uelutil.py")])
prop("C13", "Interpolation and quadrature are exact to their order",
 """Shape functions interpolate their nodes, sum to one and have the stated derivatives at every point, and
 every quadrature rule integrates all polynomials up to its stated order exactly.""",
 ["inputs"], "All points, all rules and orders, all polynomials.", pure,
 [S+"femutil.py", S+"gaussutil.py"], [("closed forms and tables", S+"femutil.py shape_*, "+S+"gaussutil.py")])
prop("C14", "Equation numbering is a bijection and restrained motions are zero",
 """Unrestrained degrees of freedom are numbered 0..neq-1 without gap or repetition, the assembly operator
 maps each element consistently with it, and restrained displacements come back as zero in place.""",
 ["inputs"], "All meshes and constraint patterns.", pure,
 [S+"assemutil.py", S+"postprocesor.py"], [("sequential numbering", S+"assemutil.py eqcounter, DME"), ("scatter back", S+"postprocesor.py complete_disp")])
prop("C15", "Loads superpose",
 """The load vector is the sum of all listed nodal loads on unrestrained equations, in any order and with
 repeated nodes, and the solution is linear in the loads.""",
 ["inputs"], "All load lists.", pure,
 [S+"assemutil.py"], [("load scatter", S+"assemutil.py loadasem")])
prop("C16", "Dense and sparse paths agree; assembly ignores element order",
 """The dense and sparse assemblers and solvers give the same matrices and solutions, unchanged under
 permutation of the elements and equivariant under renumbering of the nodes.""",
 ["inputs"], "All meshes, permutations and solvable systems.", pure,
 [S+"assemutil.py", S+"solutil.py"], [("COO summation", S+"assemutil.py sparse_assem"), ("solver choice by storage", S+"solutil.py static_sol")])
prop("C17", "Constant strain and stress states are recovered exactly",
 """For any displacement field that is linear in space the nodal strains and stresses are the exact constant
 ones at every node, for every supported element type and mesh.""",
 ["inputs"], "All meshes of one supported type and all linear fields.", pure,
 [S+"postprocesor.py", S+"femutil.py"], [("Gauss-point strains averaged at nodes", S+"postprocesor.py strain_nodes, "+S+"femutil.py str_el*")])
prop("C18", "Member stresses and principal values are correct",
 """Axial stresses equal the member force over its area with tension positive, and principal values and
 directions diagonalise any symmetric tensor including zero, equal and diagonal ones.""",
 ["inputs"], "All trusses and all symmetric 2x2 tensors.", pure,
 [S+"postprocesor.py"], [("closed forms", S+"postprocesor.py stress_truss, eigvals, principal_dirs")])
prop("C19", "Bloch reduction keeps the dispersion problem Hermitian and periodic",
 """The Bloch transformation gives every image degree of freedom its reference value times the phase of the
 node offset, keeps interior ones, and makes reduced real symmetric matrices Hermitian.""",
 ["inputs"], "All cells, wave vectors and periodic pairings.", pure,
 [S+"blochutil.py"], [("renumbering and phase factors", S+"blochutil.py")])
prop("C20", "Mesh generation and mesh conversion preserve the mesh",
 """Structured grids are conforming, positively oriented and fill the rectangle, and conversion of a Gmsh
 mesh keeps coordinates, connectivity, physical groups and the total applied load.""",
 ["inputs"], "All grid sizes and all meshes with physical groups.", pure,
 [S+"preprocesor.py"], [("rect_grid, ele_writer, node_writer, boundary_conditions, loading", S+"preprocesor.py")])
prop("C21", "Ill-shaped and unknown elements are rejected",
 """An element with zero or negative Jacobian at an integration point, an unknown element type and an
 unsupported storage or rule raise an error instead of producing a result.""",
 ["inputs"], "All coordinates, type codes and orders.", pure,
 [S+"femutil.py", S+"assemutil.py", S+"gaussutil.py", S+"solutil.py"], [("determinant tests and table lookups", S+"femutil.py jacoper, eletype")])
prop("C22", "The assembled method solves plane elasticity",
 """Well-posed problems yield the exact displacement whenever it lies in the finite element space (patch
 test), satisfy energy balance, and converge under mesh refinement at the order of the element.""",
 ["inputs"], "All well-posed problems, meshes and refinements.", pure,
 [S+"assemutil.py", S+"uelutil.py", S+"femutil.py", S+"solutil.py"], [("isoparametric displacement elements", S+"uelutil.py")])

prop("C23", "A long session holds a bounded amount of memory, files and work",
 """However long a session runs - thousands of non-plotting calls on ever different arguments, some of them
 failing or interrupted part-way - what the package keeps between calls stays bounded: arguments, results and
 errors the caller has dropped are released (a cache may keep a fixed number of entries), no open file, thread,
 temporary file or process-wide hook accumulates, and the same call takes no more steps after many calls than
 after few.""",
 ["histories", "fault_sequences", "inputs"],
 """All sequences of thousands of non-plotting public calls, with ever new arguments and with interrupts, solver,
 user-routine and file errors and invalid models in between.""",
 """A unit test makes a handful of calls per process; accumulation shows only over thousands of calls and mostly
 on failure paths.""",
 [S+"assemutil.py", S+"femutil.py", S+"uelutil.py", S+"gaussutil.py", S+"solutil.py", S+"postprocesor.py", S+"blochutil.py", S+"preprocesor.py", S+"solids_GUI.py"],
 [("no module-level mutable state; everything a call makes is local to it", "all computing modules"),
  ("files opened only by numpy.loadtxt and numpy.savetxt, which close them", S+"preprocesor.py readin, echomod")],
 [("session", "what modules keep between calls", "module globals")],
 ["memory blocks, heap bytes and objects after garbage collection", "descriptors, threads, temporary files", "lines executed by a probe call"])

prop("C24", "Calls inside calls and in forked children complete and stay independent",
 """At any instant of a call - in a signal handler, a finaliser, a callback of a user routine, another thread, or
 a child process forked at that instant - further calls can be made on the same or on other models: they
 complete, and they and the suspended call give the results they give alone (to rounding) and leave their
 arguments unchanged.""",
 ["schedules", "histories", "fault_sequences"],
 """All calls, all instants inside them, all calls nested there to any small depth, in handlers, threads and forked
 children, also when the nested call fails.""",
 """A test has no say in where a handler or a fork lands; the failing window is a few instructions wide and shows as a
 deadlock or as another call's data.""",
 [S+"assemutil.py", S+"femutil.py", S+"uelutil.py", S+"gaussutil.py", S+"solutil.py", S+"postprocesor.py", S+"blochutil.py", S+"preprocesor.py", S+"solids_GUI.py"],
 [("no locks, no scratch shared between calls, no module state in transition", "all computing modules")],
 [("suspended call", "the frames below the handler or copied by fork", "interpreter stack")],
 ["results of outer and nested calls", "completion within a limit", "arguments"])
prop("C25", "Importing the package is inert, repeatable and always yields the same package",
 """Importing any module of the package - in any order and form, first, again, or as a reload, whatever the
 streams, locale, optional libraries, user settings and files in the working directory - prints nothing and changes
 nothing else in the process or the file system, apart from the plotting defaults it is documented to set. An import
 aborted by an interrupt, a lack of memory or a file error raises that error and can be repeated. The package obtained
 always behaves the same and never takes the user's files for its own modules.""",
 ["histories", "fault_sequences", "schedules"],
 """All sequences of imports and reloads in all forms, aborted at any line of module-level code or at any file call,
 in all environments, with calls in between.""",
 """A test process imports the package once, successfully, in one environment, before the first test runs.""",
 [S+"__init__.py", S+"__main__.py", S+"postprocesor.py", S+"solids_GUI.py", S+"preprocesor.py", S+"assemutil.py"],
 [("absolute imports and definitions only at module level", "all modules"), ("plotting defaults", S+"postprocesor.py lines 15-26")],
 [("package", "modules in sys.modules, possibly partly initialised", "sys.modules")],
 ["process-wide settings, library namespaces, working directory", "results of later calls", "the exception of an aborted import"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
