"""Run counts and evidence texts per property."""
STREAMS = "FILE streams (fopencookie: chunked and failing reads), disk image, heap contents, process lifetime (fork per incarnation)"
PLAN = {
 "C01": dict(quick_runs=12000, rule="Random curves (1-5 components, open and closed, 0/1/per-vertex colors, up to 120 constraint edits, coordinates from small integers to 1e+-300) are saved, read by a new process, saved and read again.",
   states="component/vertex/color/constraint-kind shape of the saved curve", real=["plCurve.c (plc_write, plc_read, constraints, plc_copy)"], stub=[STREAMS]),
 "C02": dict(quick_runs=40000, rule="A valid VECT file is truncated, bit-flipped, token-damaged, given a wrong keyword or read through a stream that fails at a chosen byte.",
   states="damaged byte image", real=["plCurve.c (plc_read, plc_write)"], stub=[STREAMS]),
 "C03": dict(quick_runs=25000, rule="Histories of 4-48 edits (constraints, components, colors, scaling, moving, copying, arc deletion, symmetries, rotations, projections, save and reload) against a per-vertex model, measured after each edit.",
   states="component/vertex/color/constraint-kind shape after each edit", real=["plCurve.c"], stub=[STREAMS]),
 "C04": dict(quick_runs=8000, rule="Streams of 1-6 random diagrams (planar polygon shadows of 1-3 components, builders, zero crossings; signs set or unset, tags, numbers, orientations varied) are written and read by a new process; a quarter use the KnotTheory form.",
   states="diagram (crossings, signs, tags)", real=["pdcode.c (pd_write, pd_read, pd_read_err, KnotTheory I/O, pd_copy, regeneration)"], stub=[STREAMS]),
 "C05": dict(quick_runs=20000, rule="A stream of 1-3 diagrams is truncated, damaged, given extreme numbers or read through a stream that fails at a chosen byte.",
   states="damaged byte image", real=["pdcode.c (pd_read, pd_read_err, pd_read_KnotTheory, pd_ok)"], stub=[STREAMS]),
 "C06": dict(quick_runs=6000, rule="Histories of 3-40 additions (three equivalence modes, diagrams re-described by renumbering, reversal and reflection), complete and abandoned walks, searches and counts on one or two interleaved stores, against a model with its own isomorphism test.",
   states="(hash, number, element count) after each addition", real=["pd_storage.c, pd_pack.c, pd_isomorphisms.c, pdcode.c, Judy arrays"], stub=[STREAMS]),
 "C08": dict(quick_runs=8000, rule="A store (or several, incrementally) is written by a process that may be killed, meet a full or failing disk or lose power; a new process reads what is left.",
   states="bytes left on the disk", real=["pd_storage.c, pd_pack.c, pdcode.c, Judy arrays"], stub=[STREAMS]),
 "C09": dict(quick_runs=4000, rule="The polynomial of a diagram of up to 60 crossings is computed once undisturbed and then 1-4 times under time limits while the processor clock jumps, crawls, stands still or steps back at a chosen reading.",
   states="(diagram, clock readings until the call returned)", real=["plcTopology.c, pllmpoly02.c, polynomials.c, pdcode.c"], stub=["processor clock, heap contents, signal dispositions"]),
 "C10": dict(quick_runs=6000, rule="Interleaved invariant computations on 1-3 random signed diagrams (up to 13 crossings, 1-3 components), heap contents and library randomness varied between calls, against a skein recursion on Gauss codes.",
   states="diagram (crossings, signs, tags)", real=["plcTopology.c, pllmpoly02.c, polynomials.c, pd_simplify.c, pd_crossingmoves.c, pdcode.c, knot table"], stub=["processor clock, heap contents, rand()"]),
 "C13": dict(quick_runs=12000, rule="Space polygons (random, lattice with exact degeneracies in every axis projection, torus knots and links, rounded coordinates) go through plc_homfly, pd_code_from_plCurve and plc_classify with arbitrary random streams; the reference projects the polygon itself.",
   states="diagram produced", real=["plcTopology.c, octrope, plCurve.c, pllmpoly02.c, pdcode.c"], stub=["gsl generator seed, rand(), processor clock, heap contents"]),
 "C20": dict(quick_runs=8000, rule="Histories of 1-14 diagram moves (loop and bigon additions and deletions, triangle flips, tangle slides, connected sums, reversals, renumberings, simplification, and the same moves on the unsigned diagram) starting from a random signed diagram, the link type followed by a reference skein polynomial.",
   states="diagram after each move", real=["pd_crossingmoves.c, pd_tangles.c, pd_deletions.c, pd_splitdiagram.c, pd_operations.c, pd_simplify.c, pdcode.c"], stub=["heap contents"]),
 "C11": dict(quick_runs=8000, rule="1-5 samples per run from every sampler (3 to 3000 edges) with a generator the simulator controls: extreme, repeated or clustered values at seeded places.",
   states="coordinates of the sampled polygon", real=["plcRandomPolygon.c, plcRandomSap.c, vector.c, plCurve.c"], stub=["gsl generator (simulated stream), rand(), clock, heap contents"]),
 "C12": dict(quick_runs=6000, rule="The same 1-5 sampling calls with the same seed in 2-3 worlds that differ in heap contents, clock, time of day, rand() state, earlier calls and interleaved calls on another generator.",
   states="results of the first world", real=["plcRandomPolygon.c, plcRandomSap.c, plcToricSymplectic.c, plcToricSymplecticTriangulation.c, geyer_estimators.c"], stub=["rand(), clock, time of day, heap contents"]),
 "C14": dict(quick_runs=6000, rule="Whole expectation runs (equilateral, confined, fixed gap; four triangulations) and single Markov steps with simulated generator, clock and log device; every polygon handed to the integrand is checked.",
   states="final estimate or embedded polygon", real=["plcToricSymplectic.c, plcToricSymplecticTriangulation.c, geyer_estimators.c"], stub=["gsl generator (simulated stream), clock, log device, heap contents"]),
 "C21": dict(quick_runs=8000, rule="Histories of additions and evaluations on buffers of 60-600 samples, crossing the buffer size zero to several times, against a direct computation from all samples.",
   states="(samples, buffer size, series kind)", real=["geyer_estimators.c"], stub=["clock, heap contents"]),
 "C18": dict(quick_runs=6000, rule="One of the six store tools is run as a process on 1-4 generated stores: quietly, with failing opens, reads and writes, killed at a write, or on missing, truncated or damaged inputs; after a failure it is run again without faults.",
   states="(tool, bytes of its inputs)", real=["computepd.c, connectsum.c, splitpd.c, joinpd.c, filterpd.c, carbonizepd.c, pd_storage.c, pdcode.c, pd_isomorphisms.c, pd_invariants.c, argtable2"], stub=["disk and directories, FILE streams, heap contents, processor clock, process lifetime"]),
 "C16": dict(quick_runs=6000, rule="Histories of 2-8 interleaved strut, minimum radius, thickness and ropelength calls on 1-3 curves (rough loops, torus curves, walks, lattice walks, spirals, regular polygons; 1-3 open and closed components; up to 140 edges), with caller-provided, too small, reused or no scratch memory, any octree depth, refused calls and vertices moved in between, against a comparison of all edge pairs.",
   states="(length, number of edge pairs) of the measured curve", real=["octrope.c, octmem.c, minrad.c, plCurve.c, vector.c"], stub=["heap contents, contents and size of the scratch memory"]),
 "C15": dict(quick_runs=8000, rule="Histories of 2-9 nearest point or nearest vertex queries on 1-3 point sets (clouds, walks, lattices with ties, lines; 1 to 7000 points, both sides of the size where the search starts), with none, kept, freed or stale precomputed data, against a look at every point.",
   states="(points, answer)", real=["nearest_neighbor.c, plCurve.c"], stub=["heap contents, which buffer the kept data belongs to"]),
 "C22": dict(quick_runs=12000, rule="One of the five curve tools (randompolygon, plcurvature, struts, mrlocs, ropelength) is run as a process: quietly, with failing opens, reads and writes, a full disk, killed at a write, on missing, truncated or damaged inputs or with old results in the way; afterwards it is run again without faults.",
   states="(tool, arguments or bytes of its input)", real=["plcrwalk.c, plcurvature.c, struts.c, mrlocs.c, ropelength.c, octrope, samplers, plCurve.c, argtable2"], stub=["disk and directories, FILE streams, heap contents, processor clock, process lifetime"]),
 "C24": dict(quick_runs=6000, rule="One of the tools processpdstor, orientedshadows, shadow2diagram and knottype is run as a process on 1-3 generated stores or curve files: quietly, with failing opens, reads and writes, a full disk, killed at a write, or on missing, truncated or damaged inputs; after a failure it is run again without faults.",
   states="(tool, options, bytes of its inputs)", real=["processpdstor.c, orientedshadows.c, shadow2diagram.c, knottype.c, pd_storage.c, pdcode.c, pd_multidx.c, pd_isomorphisms.c, plcTopology.c, argtable2"], stub=["disk and directories, FILE streams, heap contents, processor clock, process lifetime"]),
 "C23": dict(quick_runs=20000, rule="Lists of struts and minimum-radius places (measured or made up) are written by a process that may meet a full or failing disk, be killed or lose power; what is left, intact, truncated or damaged, is read by another process through chunked and failing streams.",
   states="bytes left on the disk", real=["octrope.c (strut files), plCurve.c"], stub=[STREAMS]),
 "C25": dict(quick_runs=30000, rule="Curves in 1 to 9 (sometimes hundreds of) dimensions are saved and read by a new process; or their file is truncated, damaged, given a wrong keyword or read through a failing stream; or 1-4 curves go through histories of 2-14 operations and vector computations with garbage in fresh memory.",
   states="shape of the curve, or damaged byte image", real=["nplCurve.c, nvector.c, plCurve.c (plc_read)"], stub=[STREAMS]),
 "C26": dict(quick_runs=20000, rule="Curves of 1-3 open and closed components with colors and constraints become splines, are sampled at 2-12 places (knots, beside knots, past the end of closed components) and converted back 1-3 times with other numbers of vertices; or curves with a rotation or reflection symmetry, exact or noisy, go through histories of 1-8 operations on up to four copies; fresh memory holds garbage.",
   states="kinds of components or history of operations", real=["splines.c, symmetries.c, matrix.c, vector.c, nearest_neighbor.c, plCurve.c"], stub=["heap contents"]),
 "C19": dict(quick_runs=20000, rule="One or two arrays go through 1 to 5 phases of up to 6000 insertions, deletions and searches with keys that share bytes in one of 8 ways (6 for strings); in half of the runs single allocations or bursts of them fail; fresh memory holds garbage.",
   states="kind of array, key style, number of elements", real=["judy/src: Judy1, JudyL, JudySL, JudyHS"], stub=["malloc (failing on schedule, garbage contents)"]),
 "C27": dict(quick_runs=6000, rule="Histories of 3-25 comparisons (four ways of asking yes or no, three of listing all the maps) within a changing pool of up to six diagrams: random ones, torus and twist knots, unknots, groups that share a hash, and the same diagrams renumbered, reversed, seen from the other side, or with one sign or two tags changed; fresh memory holds garbage.",
   states="(hashes, question, answer)", real=["pd_isomorphisms.c, pd_perm.c, pd_multidx.c, pd_cyclic.c, pd_dihedral.c, pd_container.c, pdcode.c"], stub=["heap contents"]),
 "C28": dict(quick_runs=20000, rule="Histories of 1-6 requests for maps of ten kinds (sizes given by vertices, edges or faces, 1-400 vertices, tolerances, extraction methods, numbers of loops, face colors) from one seed, each map checked, printed in one of four formats, turned into a general map or freed, and the whole history repeated from the same seed; or 120 to 22680 maps of one small size counted; fresh memory holds garbage.",
   states="kind and rooted map", real=["planarmap: PMplanmap.c, PMconjugation.c, PMextract.c, PMenlight.c, PMdef.c, PMdisplay.c, stats.c"], stub=["heap contents, standard output"]),
}
