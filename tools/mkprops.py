#!/usr/bin/env python3
"""Writes properties.jsonl (the source of truth for the property texts)."""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
S = "src/system_mod/"
A = "src/agent_mod/"
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    assert len(title) <= 80, title
    d = {"id": id, "title": title, "statement": statement,
         "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
         "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                     "observe_at": observe, "hook_needed": None}}
    if state: d["anchors"]["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append(d)

SYS = [S+"cont_circ.rs", S+"cont_cubic.rs", S+"cont_cyl.rs"]
p("C01", "A successful boundary step leaves the particle inside the system",
  "For every system shape and boundary condition, when the boundary-condition step for a position and a displacement of the system's dimension reports success, the resulting position is inside the system (as the system's own inclusion test defines it) and has no NaN coordinate (and, for a system of finite size, no infinite one); in every other case it reports an error and never panics. This holds for every f64 coordinate and displacement, including NaN, infinities and displacements far larger than the system.",
  ["inputs"], "all systems constructed with positive finite sizes and any dimension, all positions and displacements of that dimension (every f64 bit pattern)",
  "The tests step a handful of small displacements in 2D/3D; NaN, overflow to infinity, large displacements and higher dimensions are never exercised.",
  SYS + ["src/position.rs"], [("check_bc re-tests inclusion after mapping", x) for x in SYS] + [("check_inclusion", S+"cont_circ.rs")],
  ["SystemCore::check_bc result and position", "check_bc_exact / check_bc_first_order result and position"])
p("C02", "Boundary steps produce the exact image the boundary condition prescribes",
  "A boundary step first moves the position by the displacement; if that point is inside the system it is the result unchanged. Otherwise each offending coordinate is mirrored at the wall it crossed (reflective), shifted by one full box length (periodic), or, for the ball and the circular part of the cylinder, the vector is rescaled along its ray so that its distance from the centre becomes twice the radius minus its distance; mixed conditions apply reflection to the leading coordinates and periodicity to the rest, and untouched coordinates stay as they are. The displacement argument is left unmodified, and an error is reported exactly when the resulting image still lies outside the system.",
  ["inputs"], "all system shapes, boundary conditions, dimensions, positions and displacements (real-number semantics)",
  "Tests check a few points per boundary condition; they cannot settle sign conventions, which coordinates are touched, or the split point of mixed conditions for every dimension.",
  SYS, [("check_bc", x) for x in SYS], ["position and displacement after SystemCore::check_bc"])
p("C03", "System inclusion tests are exact geometric membership",
  "The inclusion test of a ball, cube or cylinder answers true exactly when the position lies in the closed domain, floating-point rounding of the norm aside (Euclidean norm at most the radius for the circular coordinates, absolute value at most the half length for the box coordinates, for every coordinate), answers false for any position with a NaN coordinate, and reports an invalid-dimension error exactly when the position's dimension differs from the system's.",
  ["inputs"], "all systems, dimensions and positions (every f64 bit pattern)",
  "Tests sample a few interior and exterior points; a coordinate skipped, a wrong comparison at the boundary or NaN acceptance stays invisible.",
  SYS + ["src/position.rs"], [("check_inclusion", x) for x in SYS] + [("norm", "src/position.rs")], ["SystemCore::check_inclusion"])
p("C04", "Random positions are drawn uniformly and always lie inside the system",
  "Every random position a system returns or writes in place has the system's dimension and lies inside the system; it is obtained by mapping one fresh uniform draw per coordinate affinely onto the system's full bounding box (so no part of the system is unreachable and none is over-weighted), redrawing all coordinates until the point is inside. A target vector of the wrong dimension is rejected with an error and left untouched.",
  ["inputs", "histories"], "all systems, dimensions, generator states and previous contents of the target vector",
  "Statistical tests draw a few samples from one seed in 2D/3D and compare with bounds; they cannot establish containment or the exact map for every dimension and generator state.",
  SYS + ["src/random_mod/mod.rs"], [("random_pos / random_pos_to_vec", x) for x in SYS], ["SystemCore::random_pos, random_pos_to_vec"])
p("C05", "The designated out-of-system position is outside the system",
  "The position a system hands out as lying outside itself has the system's dimension and fails the system's inclusion test for every valid system, whatever its shape, sizes and dimension; the in-place variant writes the same position and rejects a vector of another dimension with an error.",
  ["inputs", "configurations"], "all valid systems (any positive finite sizes, any dimension at least 1, any split of the cylinder)",
  "Tests try one or two configurations per shape.",
  SYS, [("position_out_of_system(_to_vec)", x) for x in SYS], ["SystemCore::position_out_of_system(_to_vec) followed by check_inclusion"])
p("C06", "Target detection is exactly 'closer than the target radius'",
  "A bulk target reports a position as found exactly when the Euclidean distance between the position and the target centre is strictly smaller than the target size, for every dimension; a position of a different dimension gives an invalid-dimension error instead of an answer. Neither operand is modified.",
  ["inputs"], "all targets and positions of any dimension",
  "Tests check a handful of points.",
  ["src/target_mod/cont_bulk.rs", "src/position.rs"], [("check_find", "src/target_mod/cont_bulk.rs"), ("distance", "src/position.rs")], ["TargetCore::check_find", "ContBulkTarget::distance"])
p("C07", "Position arithmetic is exact vector algebra in every dimension",
  "For positions of equal dimension, addition, subtraction, scalar multiplication (all by-reference, by-mutable-reference and in-place forms), norm, Euclidean distance, taxi distance and inner product equal their mathematical definitions over all coordinates, keep the dimension, and modify only the documented operand. Distance, taxi distance and inner product of positions with different dimensions return an invalid-dimension error, and adding or subtracting them panics rather than giving a truncated result.",
  ["inputs"], "all dimensions and coordinates, for floating-point and integer positions (floating-point rounding aside; integer results within the range of the result type)",
  "Tests use two or three fixed 2D vectors.",
  ["src/position.rs"], [("Add/Sub/Numerics impls, norm, distance, inner_product, taxi_distance", "src/position.rs")], ["public operations of Position"])
p("C08", "Mutual displacement is the true distance and unit direction to the other agent",
  "For two agents of the same dimension the mutual displacement is the vector from the first to the second scaled to unit length together with the Euclidean distance, so distance times direction restores the difference of positions and swapping the agents negates the direction and keeps the distance; the in-place form writes the same vector and the plain distance operation agrees with it. Agents (or an output vector) of different dimensions give an invalid-dimension error.",
  ["inputs"], "all pairs of agents of each of the four agent kinds, all dimensions, all distinct positions",
  "Tests compute one or two 2D pairs per agent kind.",
  [A+"cont_passive_indep.rs", A+"cont_passive_merge.rs", A+"cont_passive_exp.rs", A+"cont_passive_lj.rs"], [("mutual_displacement(_to_vec), mutual_distance", A+"cont_passive_*.rs")], ["AgentCore operations"])
p("C09", "Brownian steps are one Gaussian draw per coordinate times sqrt(2 D dt)",
  "For every agent kind, the random displacement over a time step is, in each coordinate, one fresh standard normal draw times sqrt(2*D*dt) with the agent's diffusion coefficient, the in-place form adding exactly that to what the vector held; no draw is reused, skipped or shared between coordinates, and the agent itself is unchanged. Non-Brownian movement gives a feature-not-provided error and a vector of the wrong dimension an invalid-dimension error, drawing nothing and leaving the vector untouched.",
  ["inputs", "histories"], "all agents of the four kinds, dimensions, diffusion coefficients, time steps, generator states and vector contents",
  "The tests check sample moments of one seed in 2D; they cannot see draws shared between coordinates in other dimensions or wrong scaling that cancels in the sampled cases.",
  [A+"cont_passive_indep.rs", A+"cont_passive_merge.rs", A+"cont_passive_exp.rs", A+"cont_passive_lj.rs", "src/random_mod/mod.rs"], [("random_move(_to_vec)", A+"cont_passive_*.rs"), ("get_gaussian_*", "src/random_mod/mod.rs")], ["Passive::random_move(_to_vec)"])
p("C10", "Agents are always placed inside the system and off the target",
  "Uniformly creating an agent, or re-initialising an existing one, yields a position that lies inside the given system and has not found the given target, with the system's dimension, whatever the agent's previous state; the other parameters of a fresh agent are the ones requested, and a re-initialised merging agent is back to unit size with the diffusion coefficient of unit size.",
  ["inputs", "histories"], "all systems and targets (any implementation), generator states, agent kinds and previous agent states",
  "Tests place a few agents with a fixed seed.",
  [A+"cont_passive_indep.rs", A+"cont_passive_merge.rs", A+"cont_passive_exp.rs", A+"cont_passive_lj.rs"], [("new_uniform / renew_uniform rejection loop", A+"cont_passive_*.rs")], ["position of the agent after new_uniform / renew_uniform"])
p("C11", "The force of an interacting agent is minus the derivative of its potential",
  "For the exponential and Lennard-Jones agents the force at distance r equals minus the derivative of the potential at r, for all positive r and all parameters; the exponential potential is strength*exp(-r/gamma) and the Lennard-Jones potential is 4*strength*((a/r)^12-(a/r)^6) with the configured lengths, through every way of constructing the agent.",
  ["inputs", "configurations"], "all positive distances, lengths and strengths; agents from the plain constructor, uniform placement and parsed arguments (real-number semantics)",
  "Tests evaluate a few distances for one parameter set; a wrong coefficient at another construction path is not seen.",
  [A+"cont_passive_exp.rs", A+"cont_passive_lj.rs"], [("coeff, potential, force", A+"cont_passive_exp.rs"), ("coeff, potential, force", A+"cont_passive_lj.rs")], ["Interaction::potential and force"])
p("C12", "Merging conserves particle mass and rescales diffusion consistently",
  "Merging two agents, or two entries of an agent list, makes the survivor's size the sum of both sizes and its diffusion coefficient size^(-alpha), and removes exactly the absorbed entry, so the total size over live entries never changes. A merge that reports an error (dead or out-of-range entry, an entry with itself, a non-Brownian mover) leaves all sizes, coefficients and links exactly as they were.",
  ["inputs", "histories"], "all agents, all lists reachable by any operation history, all index pairs",
  "Tests perform one or two valid merges; failed merges and long histories are not exercised.",
  [A+"cont_passive_merge.rs", "src/iterator.rs"], [("Merge::merge / add_size", A+"cont_passive_merge.rs"), ("LinkedList::merge", "src/iterator.rs")], ["sizes and diffusion coefficients after merges"],
  [("size", "number of merged particles", A+"cont_passive_merge.rs"), ("alive flags", "entries not yet absorbed", "src/iterator.rs")])
p("C13", "The agent list stays a well-formed doubly linked list of its live entries",
  "After any sequence of construction, push, delete, merge, reset, traversal start and traversal step, following next-links from the head visits exactly the live entries, each once, ending at the tail; previous-links are the exact inverse, links and contents have equal length, and cursors only ever point at live entries or nothing. Deleting a dead or out-of-range entry reports an error and changes nothing; resetting revives every entry in index order.",
  ["histories", "inputs"], "all operation sequences on lists of any length and element type",
  "Tests run fixed short scripts on five-element lists.",
  ["src/iterator.rs"], [("push, del, connect_all, from, merge", "src/iterator.rs")], ["public fields of the list after each operation"],
  [("links/head/tail/current", "doubly linked list over indices with three cursors", "src/iterator.rs")])
p("C14", "A single traversal visits every live entry exactly once, in list order",
  "A traversal started at the head yields each live entry exactly once in list order with its own index and contents and then ends, through every single-step access form; deleting the entry just yielded, or any other, during the traversal neither skips nor repeats a surviving entry and never yields a deleted one.",
  ["histories", "inputs"], "all lists reachable by any history, all interleavings of deletions with the traversal",
  "Tests traverse short lists with one deletion pattern.",
  ["src/iterator.rs"], [("get, get_mut, enumerate, enumerate_mut, indicies", "src/iterator.rs"), ("del repairs cursors", "src/iterator.rs")], ["sequence of yielded indices"])
p("C15", "A pair traversal visits every unordered pair of live entries exactly once",
  "A pair traversal yields each unordered pair of distinct live entries exactly once, in lexicographic list order, with matching indices and contents and the earlier entry first, and then ends; it yields nothing for lists with fewer than two live entries. Deleting or merging away the second entry of the pair just yielded keeps the rest of the traversal complete over the surviving entries.",
  ["histories", "inputs"], "all lists reachable by any history; deletions of the second entry of the yielded pair at any point",
  "Tests enumerate the pairs of a five-element list and one deletion pattern.",
  ["src/iterator.rs"], [("into_double_iter, get_double, enumerate_double, indicies_double", "src/iterator.rs")], ["sequence of yielded pairs"])
p("C16", "Time iteration starts at zero, advances by its step and never passes the limit",
  "Both time iterators yield zero first and then each time as the previous one plus a positive step, yield a time exactly when it does not exceed the configured limit, and yield nothing after that; renewing restarts the identical sequence without touching limit or configuration. Construction and limit setting reject negative (and for the step: zero or NaN) values with an error or panic, treat a zero limit (anything below the smallest representable schedule: 1e-10 for constant, 1e-15 for exponential steps) as unlimited and otherwise take the limit exactly.",
  ["inputs", "histories"], "all step sizes, limits, and positions in the iteration",
  "Tests run a handful of short schedules.",
  ["src/time_mod/mod.rs"], [("Iterator::next, set_tmax, renew, new, convert_from", "src/time_mod/mod.rs")], ["sequence of yielded times"])
p("C17", "The exponential schedule's step grows by its ratio and stays within bounds",
  "The exponential time iterator uses the minimal step first, multiplies it by the increase ratio after exactly the configured number of steps, each time, until it is capped at the maximal step, so the step is always within [minimum, maximum] and never decreases; the increase ratio is always greater than one after construction and after every accepted change, and invalid step ranges, zero lengths and ratios of at most one are rejected. Renewing restores the minimal step and the count.",
  ["inputs", "histories"], "all minimal/maximal steps, lengths, ratios and iteration counts",
  "Tests run one schedule for some steps.",
  ["src/time_mod/mod.rs"], [("ExponentialStep::new, set_inc, next, renew, convert_from", "src/time_mod/mod.rs")], ["dt and current time after each step"])
p("C18", "The time-difference view pairs every time with the step that follows it",
  "Turning a time iterator into its time-difference view starts from the iterator's present state without changing the original, and yields exactly the original's times, each paired with the step size by which the iterator then advances to the next time, for both schedules and across step-size increases; it ends when the original ends.",
  ["inputs", "histories"], "all iterators in any state", "Tests compare one constant and one exponential schedule.",
  ["src/time_mod/mod.rs"], [("TimeDiffIterator::next, into_diff", "src/time_mod/mod.rs")], ["pairs yielded by the view"])
p("C19", "Histogramming never goes out of range and counts each sample once",
  "For every accepted histogram configuration, after its storage is allocated, and every finite sample, recording the sample does not panic, adds one to the ensemble count, adds the sample and its square to the running sums, and adds one to exactly the linear bin and exactly the logarithmic bin whose interval contains it when it lies within [minimum, maximum], and to no bin otherwise. Configurations that cannot be binned (negative or inverted range, non-positive widths, too few bins) are rejected with an error and change nothing.",
  ["inputs", "configurations", "histories"], "all accepted configurations of the three analyses, all samples including the range ends (real-number semantics for the bin formula)",
  "Tests record a few samples in the interior of one configuration; the range ends and other configurations are not exercised.",
  ["src/analysis.rs"], [("bin_pos, lbin_pos, add_ensemble, add_pair, update_from_*", "src/analysis.rs")], ["Debug image of the analysis after recording"])
p("C20", "Mean and standard deviation equal the sample statistics; clearing is complete",
  "After recording any samples and drawing, the reported mean and standard deviation are the arithmetic mean and the population standard deviation of the samples, and for finite samples whose squares do not overflow the standard deviation is never NaN. Clearing an analysis makes it behave as freshly allocated: the same samples recorded afterwards give the same results as on a fresh analysis of that configuration.",
  ["inputs", "histories"], "all sample multisets and record/clear/draw histories of the three analyses",
  "Tests use one small sample set; cancellation, repeated samples and clear-then-reuse histories are not covered.",
  ["src/analysis.rs"], [("add_ensemble, add_pair, draw, clear", "src/analysis.rs")], ["export_mean_stddev after draw"])
p("C21", "Drawn histograms are normalised densities over their bins",
  "After drawing, each linear bin's density times the linear bin width times the number of samples equals its count, and each logarithmic bin's density times that bin's own width (which grows by the configured ratio from bin to bin, starting at the minimum) times the number of samples equals its count, for every bin; for process measurements each bin instead holds the mean and standard deviation of the values recorded in it. No bin is skipped, shifted or left stale.",
  ["inputs", "histories"], "all configurations, counts and bins (real-number semantics)",
  "Tests compare a few bins of one configuration.",
  ["src/analysis.rs"], [("draw", "src/analysis.rs")], ["densities exported after draw"])
p("C22", "Data sets group together exactly when their parameters agree",
  "Two parameter sets of a simulation compare equal exactly when every parameter that identifies the data set (all but the simulation bookkeeping) is numerically equal, and equal parameter sets hash alike, so analysis never merges runs made with different parameters nor splits runs made with the same ones.",
  ["inputs"], "all parameter values of every type used in a data set",
  "Tests compare a few hand-picked parameter sets.",
  ["src/macros.rs", "src/analysis.rs"], [("derive_hash!, PartialEq of construct_dataset!", "src/macros.rs")], ["==, hash of data sets"])
p("C23", "Every descriptive type survives writing out and reading back",
  "For every system, boundary, target, agent, movement and interaction type and for positions with at least one coordinate, formatting a value and parsing the text gives back the same value, for all parameters; the documented short input forms parse to the value they denote, and a parameter or coordinate that is missing or not a number gives an error rather than a wrong value.",
  ["inputs"], "all enum variants and all finite parameters",
  "Tests round-trip one parameter value per variant.",
  [S+"mod.rs", "src/target_mod/mod.rs", A+"types.rs", "src/time_mod/mod.rs", "src/position.rs"], [("Display / FromStr pairs", "src/macros.rs and the type modules")], ["format! followed by parse"])
p("C24", "A configuration header written to a data file reads back as the same arguments",
  "For every argument structure, reading the lines of its printed configuration yields arguments equal to the printed ones, for all values of every field (text fields without line breaks or surrounding blanks), and consumes exactly those lines so that consecutive structures in one header read back independently.",
  ["inputs"], "all argument structures of the crate and all field values",
  "Tests round-trip one value per structure, none with text containing the separator.",
  ["src/argument.rs"], [("print_configuration / read_args_from_lines", "src/argument.rs")], ["header text and the arguments read from it"])
p("C25", "Command-line arguments are assigned by position and counted exactly",
  "Reading a structure from an argument vector assigns the n-th argument to the n-th declared field, parses each with that field's type, requires at least the declared number of arguments and reports an error, never a panic or a shifted assignment, when one is missing or malformed; the simulation-level reader hands consecutive, non-overlapping argument ranges to consecutive structures in order.",
  ["inputs", "configurations"], "all argument structures of the crate and all argument vectors",
  "Tests read one vector per structure.",
  ["src/argument.rs", "src/setup.rs"], [("read_args_from_vec, read_arguments!", "src/argument.rs, src/setup.rs")], ["arguments read from a vector"])
p("C26", "Exports list every non-empty bin once, in order, at its own position",
  "The exported linear and logarithmic distributions contain exactly one line per bin that received samples, in increasing order, each carrying the bin's centre (arithmetic for linear, geometric for logarithmic bins), its count and its drawn value, and no line for empty bins.",
  ["inputs", "histories"], "all configurations and recorded samples of the three analyses",
  "Tests look at exported files of one run.",
  ["src/analysis.rs"], [("export_distribution, export_log_scaled_distribution", "src/analysis.rs")], ["lines written by the export functions"])
p("C27", "Run analysis attributes every data file to its own parameter set exactly once",
  "Analysing a directory reads every data file with a readable header once, adds each of its samples to the analysis of the parameter set in that file's header and to no other, and writes one summary line per distinct parameter set.",
  ["inputs", "configurations"], "all directories of data files",
  "The existing tests that run the analysis depend on files that are absent and are not among the reliable ones.",
  ["src/analysis.rs"], [("Analysis::analyze", "src/analysis.rs")], ["summary and distribution files written by analyze"])
p("C28", "All randomness comes from the seeded generator, one draw at a time",
  "Every random vector operation consumes exactly one fresh draw of the given generator per coordinate, in coordinate order, uniform draws lie strictly between the requested bounds and Gaussian draws have exactly the requested mean and standard deviation, the in-place forms overwriting (standard forms) or adding to (forms with bounds or mean and deviation) the previous contents; a generator is fully determined by its seed. Hence equal seeds give identical results and no other source of randomness enters.",
  ["inputs", "histories"], "all generator states, dimensions, bounds and vector contents",
  "Tests check moments of a few thousand draws.",
  ["src/random_mod/mod.rs"], [("rng_seed, get_uniform*, get_gaussian*", "src/random_mod/mod.rs")], ["values and generator state after each operation"])
p("C29", "Errors are classified by their origin and compare by category",
  "Every error belongs to exactly one category, determined by how it arose: plain messages are data errors, input/output failures are I/O errors and every other code is a syntax error. The three category predicates agree with that classification, and two errors compare equal exactly when they are of the same category.",
  ["inputs"], "all error codes and errors", "Tests touch two or three codes.",
  ["src/error.rs"], [("classify, is_io, is_data, is_syntax, PartialEq", "src/error.rs")], ["Error::classify and ==", ])
p("C30", "Only valid systems and arguments can be constructed",
  "Constructing a system directly or from parsed arguments succeeds exactly when its sizes are positive, its dimension is at least one and its type, boundary condition and split dimension are mutually consistent; otherwise it panics instead of building an inconsistent system. A constructed system carries exactly the requested sizes, dimension, type and boundary condition.",
  ["inputs", "configurations"], "all constructor arguments and parsed argument structures of the three systems",
  "Tests construct a few valid systems and one or two invalid ones.",
  SYS, [("new, convert_from", x) for x in SYS], ["fields of the constructed system, or the panic"])
with open(os.path.join(HERE, "..", "properties.jsonl"), "w") as f:
    for d in P: f.write(json.dumps(d, ensure_ascii=False) + "\n")
print(len(P))
