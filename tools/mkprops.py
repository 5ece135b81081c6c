#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script because JSON lines are hard to edit)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                               state=[dict(name=n, meaning=m) for n, m in state], observe_at=observe, hook_needed=hook)))
K = "src/kernel/lib/"
C = "src/compiler/lib/"

p("C01", "Spatial tiling, threads and storage layout never change results",
  "Running a legal stencil program over any range of steps leaves in every variable exactly the values that evaluating each equation once, in dependency order, at every point of the domain gives. Block sizes at any level (including sizes that do not divide the domain), thread counts, thread binding, padding and allocation options are not observable in any result.",
  ["programs", "configurations", "inputs"],
  "For every legal program, domain size, initial contents, block/micro-block/nano-block/pico-block size, thread count and padding option.",
  "The tests run a fixed list of stencils with a few hand-picked block sizes and compare with the library's own scalar reference; sizes, programs and option combinations outside that list are never run, and a change to both evaluations is invisible.",
  [K + "context.cpp", K + "stencil_calc.cpp", K + "stencil_calc.hpp", K + "settings.cpp", K + "indices.hpp", "utils/lib/YaskUtils/..."[:9] + "bin/gen_loops.pl"],
  [("nested loops over mega-blocks, blocks, micro-, nano- and pico-blocks", K + "context.cpp calc_mega_block/calc_block/calc_micro_block; stencil_calc.hpp calc_nano_block_opt"),
   ("peel and remainder masks for partial vectors", K + "stencil_calc.hpp calc_nano_block_opt"),
   ("rounding and limiting of nested sizes", K + "settings.cpp adjust_settings/find_num_subsets")],
  ["element and slice reads after run_solution"])
p("C02", "Temporal tiling (wave-fronts and temporal blocks) never changes results",
  "Evaluating several steps per tile, at any of the temporal levels and with any temporal size, gives exactly the same values as completing one step everywhere before the next begins. This includes tiles cut off by a boundary, ranges of steps that are not multiples of the temporal size, and step conditions.",
  ["programs", "configurations", "inputs"],
  "For every legal program, domain size, number of steps and combination of temporal and spatial sizes, including partial last tiles and several ranks.",
  "Tests use one or two temporal sizes on a few stencils; the skewed shapes depend on sizes, angles, number of stages and the position of partial tiles, and an error shows only for a few combinations.",
  [K + "context.cpp", K + "setup.cpp", K + "stencil_calc.cpp"],
  [("shifting of mega-blocks and extension into neighbours", K + "context.cpp shift_mega_block, setup.cpp update_var_info"),
   ("trapezoid phases and bridges", K + "context.cpp shift_micro_block, setup.cpp update_tb_info"),
   ("scratch storage sized for shifts", K + "alloc.cpp alloc_scratch_data")],
  ["element and slice reads after run_solution"])
p("C03", "Any decomposition over ranks computes the same global result",
  "Splitting the overall domain over any grid of ranks gives, in the union of what the ranks own, exactly what one rank computes for the whole domain. Every element belongs to a rank, and ranks that store the same element agree on it.",
  ["programs", "configurations", "inputs"],
  "For every legal program, domain size, rank grid (including uneven and one-wide parts), exchange option and tiling.",
  "The tests run at most a few fixed rank grids on the stock stencils; which elements of which faces, edges and corners are sent for which variable and step depends on the program and on the grid.",
  [K + "halo.cpp", K + "alloc.cpp", K + "setup.cpp", K + "context.cpp", C + "Eqs.cpp"],
  [("halo exchange per variable and dirty step", K + "halo.cpp exchange_halos"),
   ("buffers per neighbour, pruned by distance", K + "alloc.cpp alloc_mpi_data; compiler-computed neighbour distance"),
   ("interior/exterior sections", K + "context.cpp MpiSection")],
  ["element and slice reads on all ranks after run_solution"])
p("C04", "Values written through the API between runs are seen by every later run",
  "After any sequence of API writes and runs, each run computes with the last values written, on every rank and in every rank's copy of its neighbours' points. A rank never uses a stale copy of an element another rank owns, whether the owner changed it by computing or through any write call.",
  ["histories", "configurations", "programs"],
  "For every history of element, slice, whole-variable and additive writes interleaved with runs and explicit exchanges, at every step index and position.",
  "Tests initialise once and run once; freshness of copies depends on which call, step and position was written since the last exchange.",
  [K + "yk_var_apis.cpp", K + "yk_var.cpp", K + "yk_var.hpp", K + "halo.cpp"],
  [("dirty flags per step set by writers, cleared by exchange", K + "yk_var.cpp set_dirty*, halo.cpp"),
   ("dirty marks by computing", K + "context.cpp update_var_info")],
  ["element and slice reads on all ranks after run_solution"], [("dirty flags", "steps whose halo copies may be stale")])
p("C05", "Message timing, overlap and shared memory never change results or block a run",
  "Whatever the order in which messages and notifications arrive and whichever ranks share memory, every run on every rank ends with the same values, and every message is received exactly once into the matching buffer. Overlapping communication with computation, exchanging through shared memory and scalar packing are not observable.",
  ["schedules", "configurations", "programs"],
  "For every arrival order, node placement, overlap and shared-memory option, and program (including ones that exchange in one direction only).",
  "Tests run with whatever timing the one host gives, on one node, and never with messages delayed or reordered between pairs.",
  [K + "halo.cpp", K + "alloc.cpp", K + "context.cpp", K + "context.hpp"],
  [("non-blocking send/receive with per-variable tags", K + "halo.cpp"),
   ("shared-memory locks with sequence", K + "context.hpp SimpleLock/MPIBuf, halo.cpp"),
   ("overlap sections", K + "context.cpp run_solution")],
  ["return of run_solution on all ranks, element reads, MPI calls made"], [("shared-memory lock", "reader/writer handshake per buffer")])
p("C06", "Rank domains tile the overall domain and settings stay consistent",
  "After preparation the rank domains partition the overall domain exactly, in the order of the rank indices, and every geometry query on every rank agrees with that partition. Conflicting or impossible settings of domain sizes, rank counts and rank indices are refused with an exception, and legal ones are accepted in any order.",
  ["configurations", "histories"],
  "For every combination and order of overall-domain, rank-domain, number-of-ranks and rank-index settings via API or options.",
  "Tests use a handful of even decompositions with one way of setting them.",
  [K + "setup.cpp", K + "soln_apis.cpp", K + "settings.cpp", K + "context.cpp"],
  [("choice of rank grid and sizes", K + "setup.cpp setup_rank"), ("setters with validity checks", K + "soln_apis.cpp")],
  ["get_rank_domain_size, get_overall_domain_size, get_num_ranks, get_rank_index, get_first/last_rank_domain_index"])
p("C07", "Element and slice access behaves like an indexed array",
  "Reads return the last value written to that element by any access path (element, slice of either precision, uniform slice, whole variable, add) and writes change no other element. Element counts returned, are-local queries, bounds exceptions and strict/non-strict handling match the reported index ranges exactly, in every dimension order, misc offset and fold.",
  ["histories", "inputs", "configurations"],
  "For every sequence of access calls with in-range, partly and wholly out-of-range indices, on variables of every dimensionality, layout and allocation.",
  "Tests touch a few hand-chosen elements and slices; vectorised slice code has many paths that depend on alignment with the fold.",
  [K + "yk_var_apis.cpp", K + "yk_var.hpp", K + "yk_var.cpp", K + "generic_var.cpp"],
  [("index checks", K + "yk_var.cpp check_indices"), ("slice loops, vectorised and elementwise", K + "yk_var.hpp _elements_in_slice / _vecs_in_slice"), ("layout index computation", K + "yk_var.hpp get_elem_ptr")],
  ["yk_var element and slice calls"])
p("C08", "The window of valid step indices advances as specified",
  "After each run or write the reported first and last valid step indices are exactly the steps whose values are stored, access outside them is refused, and each valid step keeps its own values until the window moves past it. The window size equals the number of steps allocated, which is never less than the program needs.",
  ["histories", "programs", "configurations"],
  "For every history of forward or backward runs of any length, writes and step-allocation setting.",
  "Tests look at the window after one run; overwriting a step too early shows only for particular read patterns and allocations.",
  [K + "yk_var.hpp", K + "yk_var.cpp", K + "yk_var_apis.cpp", C + "Var.cpp"],
  [("window update after evaluation", K + "yk_var.cpp update_valid_step, context.cpp update_var_info"),
   ("step allocation and write-back analysis", C + "Var.cpp get_step_dim_info")],
  ["get_first_valid_step_index, get_last_valid_step_index, element reads at old steps"])
p("C09", "Reductions over a slice are exact",
  "The sum, sum of squares, product, minimum and maximum returned for a slice are those of exactly the elements of the slice, and the element count is right, whatever the contents, slice shape and thread count. A reduction that was not requested is refused rather than answered.",
  ["inputs", "configurations"],
  "For every slice, set of requested reductions and contents (including all-negative and zero values).",
  "Tests reduce one slice of positive values.",
  [K + "yk_var.hpp", K + "yk_var_apis.cpp", "include/aux/yk_var_api.hpp"],
  [("per-thread partial results and join", K + "yk_var.hpp reduce_elements_in_slice"), ("result object", K + "yk_var.hpp red_res")],
  ["reduce_elements_in_slice and the getters of its result"])
p("C10", "Equations are ordered by their dependencies and bad programs are refused",
  "In a step, every equation is evaluated after all equations whose new values it reads, whatever the order in which they were given, and only once. Programs with circular dependencies, contradictory writes or malformed accesses are refused at compile time with an exception instead of being miscompiled; all other programs are accepted.",
  ["programs"],
  "For every set of equations in every definition order, with automatic or manually declared dependencies.",
  "Tests contain a few hand-written equation groups; wrong stage order shows only for particular dependency shapes.",
  [C + "Eqs.cpp", C + "Eqs.hpp", C + "Solution.cpp", C + "Var.cpp"],
  [("dependency analysis, parts and stages", C + "Eqs.cpp analyze_eqs, make_parts, make_stages")],
  ["compiler API calls, values after run_solution"])
p("C11", "Domain and step conditions select exactly the stated points and steps",
  "An equation with a domain condition writes exactly the points where the condition is true and leaves all others untouched, and one with a step condition does so exactly in the steps where it is true. This holds for conditions of any shape, including disjoint, non-rectangular and empty regions, under any tiling, fold and decomposition.",
  ["programs", "configurations"],
  "For every condition built from indices, first/last index, comparisons, arithmetic and logical operators, on any number of ranks.",
  "Tests include a few rectangular conditions with fixed sizes.",
  [C + "Expr.cpp", C + "Eqs.cpp", K + "setup.cpp", K + "stencil_calc.cpp", K + "context.cpp"],
  [("bounding boxes of the valid region", K + "setup.cpp find_bounding_box"), ("merging equations with the same conditions", C + "Eqs.cpp"), ("step-condition test", K + "context.cpp, generated is_in_valid_step")],
  ["element and slice reads after run_solution"])
p("C12", "Scratch variables are equivalent to substituting their definitions",
  "A program that uses intermediate scratch values, chained or conditional, computes the same results as the one with each use replaced by its defining expression at that point. Sharing of scratch storage, its size, its initial contents and recomputation at tile boundaries are not observable.",
  ["programs", "configurations"],
  "For every chain of scratch definitions with any offsets, under any tiling, thread count and memory-sharing option.",
  "Tests have a few scratch stencils with default sizes.",
  [C + "Eqs.cpp", K + "alloc.cpp", K + "stencil_calc.cpp", K + "setup.cpp"],
  [("halo propagation through scratch chains", C + "Eqs.cpp calc_halos"), ("write halos and span adjustment", K + "stencil_calc.cpp adjust_scratch_span, setup.cpp find_scratch_write_halos"), ("slot reuse", C + "Eqs.cpp scratch memory slots")],
  ["element and slice reads after run_solution"])
p("C13", "Code-generation choices never change results",
  "Vector folding, target instruction set, element size, loop and layout choices, equation bundling and expression optimisations give the same values for arithmetic that is exact in the chosen precision. Every accepted combination yields code that compiles and runs.",
  ["configurations", "programs"],
  "For every program and combination of compiler options.",
  "Tests compile a few stencils with default options for one target.",
  [C + "Cpp.cpp", C + "CppIntrin.cpp", C + "ExprUtils.cpp", C + "Vec.cpp", C + "YaskKernel.cpp", C + "Solution.cpp"],
  [("vector printer: loads, unaligned construction, masks", C + "Vec.cpp, Cpp.cpp, CppIntrin.cpp"), ("expression optimisers", C + "ExprUtils.cpp"), ("settings", C + "Settings.cpp")],
  ["values after run_solution of the generated kernel"])
p("C14", "Storage lifecycle and fusing keep or drop data exactly as stated",
  "Storage exists exactly between allocation (explicit or by preparation) and release; access without storage is refused, contents survive re-preparation-free use, and fused variables share one storage while others never alias. Pads, halos and allocation sizes reported are at least those requested and mutually consistent.",
  ["histories", "configurations"],
  "For every sequence of halo, padding, misc-index, allocation, release and fuse calls on solution and user-created variables.",
  "Tests allocate and release each variable once.",
  [K + "yk_var_apis.cpp", K + "alloc.cpp", K + "new_var.cpp", K + "generic_var.cpp"],
  [("allocation", K + "alloc.cpp"), ("resize/pad arithmetic", K + "yk_var.cpp resize"), ("fuse", K + "yk_var_apis.cpp fuse_vars")],
  ["is_storage_allocated, get_raw_storage_buffer, geometry queries, element access"])
p("C15", "Auto-tuning changes speed only",
  "With the auto-tuner on, in-run or offline, the values computed and the valid steps are those of the untuned run, and the settings it leaves are legal. It can be queried, stopped and restarted at any time, and it ends.",
  ["schedules", "configurations", "histories"],
  "For every sequence of measured times, run lengths, tuned sizes and restart points.",
  "Tests cannot control the measured times, so they visit one random path of the search.",
  [K + "auto_tuner.cpp", K + "auto_tuner.hpp", K + "context.cpp"],
  [("search over neighbouring sizes", K + "auto_tuner.cpp eval"), ("state restored after offline runs", K + "context.cpp run_auto_tuner_now")],
  ["values, windows and settings after tuned runs"])
p("C16", "Command-line options are parsed exactly",
  "Each recognised option sets exactly its documented settings to the given value, everything else is returned unchanged and in order, later settings override earlier ones, and malformed or out-of-range values are refused with an exception that leaves other settings alone. Reported option values equal the settings in effect.",
  ["inputs", "histories"],
  "For every string of tokens, option order, quoting, negation and multi-dimension option.",
  "Tests pass a few valid strings.",
  ["src/common/common_utils.cpp", K + "settings.cpp", K + "soln_apis.cpp"],
  [("command_line_parser", "src/common/common_utils.cpp"), ("option definitions", K + "settings.cpp add_options")],
  ["apply_command_line_options, get_command_line_values, geometry getters"])
p("C17", "Work statistics count exactly the work done",
  "The statistics report the number of steps done since they were last cleared and the points and writes that the program's equations cover in those steps, and clearing resets them. They do not depend on tiling or threads.",
  ["histories", "programs", "configurations"],
  "For every program, sequence of runs and clears, and tiling.",
  "Tests print statistics without checking them.",
  [K + "context.cpp", K + "soln_apis.cpp", K + "setup.cpp"],
  [("steps_done per stage", K + "context.cpp, stencil_calc.cpp"), ("work per step", K + "setup.cpp init_work_stats")],
  ["get_stats, clear_stats"])
p("C18", "Backward-in-time programs mirror forward ones",
  "A program whose equations write the previous step computes, for decreasing step indices, the same sequence of states as its mirror image does for increasing ones. Windows, step conditions, temporal tiling and halo exchange behave symmetrically.",
  ["programs", "configurations", "histories"],
  "For every legal reverse program under every tiling, decomposition and run history.",
  "Tests have one reverse stencil with default settings.",
  [K + "context.cpp", K + "yk_var.cpp", C + "Eqs.cpp", C + "Var.cpp"],
  [("step direction", C + "Eqs.cpp/Solution; " + K + "context.cpp run_solution"), ("window update", K + "yk_var.cpp update_valid_step")],
  ["element and slice reads, valid-step window"])
p("C19", "Thread scheduling never changes results",
  "Whatever order or interleaving the threads of a parallel region run in, a run gives the same values. Concurrent atomic additions from several host threads to one element are all counted.",
  ["schedules", "programs", "configurations"],
  "For every assignment of loop iterations to threads and every order of execution within each parallel region.",
  "Tests run under whatever schedule the runtime picks, on few threads, and races rarely show.",
  [K + "context.cpp", K + "stencil_calc.cpp", K + "yk_var_apis.cpp", K + "yk_var.hpp"],
  [("independent blocks per phase, barrier between phases", K + "context.cpp calc_mega_block"), ("per-thread scratch", K + "setup.cpp update_scratch_var_info"), ("atomic update", K + "yk_var.hpp add_to_element")],
  ["values after run_solution under a controlled OpenMP scheduler"])
p("C20", "Solution life-cycle calls and hooks follow the documented order",
  "Running before preparation, using an ended solution, and other out-of-order calls are refused with an exception and have no effect; legal sequences, including preparing again and several solutions in one environment, work and keep solutions independent. Hooks run exactly when documented, in registration order, with the steps being run.",
  ["histories"],
  "For every sequence of life-cycle calls on one or several solutions.",
  "Tests follow the single normal order.",
  [K + "soln_apis.cpp", K + "context.cpp", K + "factory.cpp"],
  [("prepared flag and checks", K + "soln_apis.cpp prepare_solution/end_solution, context.cpp run_solution"), ("hooks", K + "soln_apis.cpp call_before/after_*")],
  ["exceptions, hook log, values"])
p("C21", "Finite-difference coefficients are exact for polynomials",
  "The coefficients for the derivative of order m at a point e from n different sample points are the ones for which the weighted sum of values equals the derivative for every polynomial of degree less than n, whatever the spacing of the points and the order in which they are given; when n is not greater than m they are all 0. The center, forward and backward forms are those for evenly spaced points on both sides, to the right and to the left of the evaluation point, that point included. Orders, radii and accuracies below 1 and fewer than two points are refused with an exception.",
  ["inputs"],
  "For every derivative order, evaluation point and sequence of different sample points.",
  "A test prints some coefficients and checks none; stencils use the center form at a few radii.",
  ["src/common/fd_coeff2.cpp", "src/contrib/coefficients/fd_coeff.cpp", "include/yask_common_api.hpp"],
  [("recurrence", "src/contrib/coefficients/fd_coeff.cpp fd_coeff"), ("forms and checks of arguments", "src/common/fd_coeff2.cpp get_*_fd_coefficients")],
  ["returned coefficients", "exceptions"])
for x in P:
    x["anchors"]["files"] = ["utils/bin/gen_loops.pl" if f.endswith("gen_loops.pl") else f for f in x["anchors"]["files"]]
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
print(len(P))
