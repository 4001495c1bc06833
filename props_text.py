prop("C01", "A saved curve loads back as the same curve",
  "Every curve that can be built through the public interface (any number of components, open or closed, with no, one or per-vertex colors, and any mix of fixed, line and plane constraints) and saved as a VECT file is accepted when a later process loads that file, however the stream delivers its bytes. The loaded curve has the same components, vertex order, open/closed flags, color counts and per-vertex constraints, with coordinates, colors and constraint vectors equal to at least 15 significant digits, and saving and loading it again changes nothing further. Saving never changes the curve, and loading then freeing leaves no memory behind.",
  ["inputs", "configurations", "fault_sequences"], "all curves; all ways of splitting the byte stream into reads, all stdio buffer modes, all contents of fresh heap memory, a process restart between saving and loading",
  "Tests round-trip a few small fixed curves through a real file, in one process, with few constraints and no constrained multi-component curves.",
  ["src/plCurve.c"], [("VECT writer and constraint comments", "src/plCurve.c plc_write"), ("VECT reader", "src/plCurve.c plc_read"), ("deep copy", "src/plCurve.c plc_copy")],
  "Random curves written by the real writer to a simulated disk, read back by a new simulated process through a stream with random chunking and buffering, compared with an independent model.", ["plc_read result", "bytes on the simulated disk"])
prop("C02", "Damaged or failing VECT streams are refused cleanly or read soundly",
  "Whatever bytes a VECT stream contains, and whether or not its reads fail part way, loading it ends by returning either a structurally sound curve with error code zero, or no curve together with a nonzero error code and a terminated message that fits the caller's buffer. A file cut off before its last number, lacking the VECT keyword, or whose reads start to fail before its last number, is never accepted; a curve read from an intact file through a stream that reports an error is the stored curve. Loading never crashes, hangs, ends the process, reads or writes outside its memory, or leaks.",
  ["fault_sequences", "inputs", "crash_points"], "every truncation point, bit flip, token substitution, read error (sticky or transient) and combination, every message buffer size",
  "Tests feed a handful of hand-written bad files; none fails a read, truncates at every byte or checks that memory is freed.",
  ["src/plCurve.c"], [("VECT reader and its error paths", "src/plCurve.c plc_read"), ("number scanner that skips comments", "src/plCurve.c get_comment / skip_whitespace_and_comments / scanints / scandoubles")],
  "Valid files are damaged by the simulator (or their stream fails) and read by the real reader under AddressSanitizer with an allocation ledger.", ["plc_read result, error code, message"])
prop("C03", "Any history of curve edits gives the curve the edits describe",
  "After any sequence of edits (constraining, freeing, adding, dropping and recoloring components, scaling, translating, doubling vertices, deleting arcs, applying Whitten symmetries, rotating, projecting, refolding, copying, saving and reloading) the curve has exactly the components, vertices, open/closed flags, colors and per-vertex constraints that the edits describe. Constraints stay attached to their own vertices when components are added or dropped, each vertex carries at most one constraint, wrap-around vertices agree with the vertices they repeat, and a copy is independent of its original. The measurements (vertex, edge and component counts, lengths, arc positions, subarcs, diameter, center of mass, gyradius, edge statistics, chords, turning angles, curvature, tangents, total curvature and torsion, dihedral angles) are those of that curve. (Rotations, projections and refolding are claimed for the vertices of unconstrained curves, angles for curves without very short edges or fold-backs.) No history reads or writes outside its memory or leaks once the curve is freed.",
  ["histories", "inputs"], "all edit histories (explored to 48 edits), all curves, all contents of fresh heap memory, reloads (process restarts) at any point",
  "Tests run each operation once on fixed curves; interactions between constraints, components and reloads are not explored.",
  ["src/plCurve.c"], [("constraint list maintenance", "src/plCurve.c plc_set_constraint / overrun_check"), ("component insertion and removal", "src/plCurve.c plc_add_component / plc_drop_component"), ("wrap vertices", "src/plCurve.c plc_fix_wrap")],
  "Random edit histories on the real curve and on a per-vertex reference model, compared after every edit and measured, with garbage-filled heap and save/reload steps.", ["curve after each edit", "its measurements"])
prop("C04", "A saved diagram loads back as the same diagram",
  "Every valid planar diagram (any number of crossings including none, any number of components, crossing signs set or unset, any component tags and serial number) written as text is read back by a later process as the same diagram: same crossings, signs, edges, components, tags, faces, hash and number; several diagrams in one stream come back in order, followed by a clean end-of-file. A fully signed diagram written in KnotTheory form and read back is the same oriented link diagram up to renumbering (a component that passes only over, and only twice, may come back reversed). Writing never changes a diagram, and a copy of a diagram equals it.",
  ["inputs", "configurations", "fault_sequences"], "all diagrams and streams of diagrams; all ways the stream splits its reads, all buffer modes, all heap contents, a process restart in between",
  "Tests round-trip a fixed list of codes one at a time in one process; unset signs, tags, two-edge components and multi-diagram streams are barely covered.",
  ["src/pdcode.c"], [("diagram writer and reader", "src/pdcode.c pd_write / pd_read_err"), ("KnotTheory form", "src/pdcode.c pd_write_KnotTheory / pd_read_KnotTheory"), ("regeneration of edges, components and faces", "src/pdcode.c pd_regenerate_*"), ("copy", "src/pdcode.c pd_copy")],
  "Random diagrams from planar polygons and builders are written to the simulated disk, read by a new simulated process and compared field by field, or by an independent diagram isomorphism for the KnotTheory form.", ["pd_read / pd_read_KnotTheory results"])
prop("C05", "Damaged or failing diagram streams are refused or read soundly",
  "Whatever bytes a diagram stream contains (text or KnotTheory form), and whether or not its reads fail part way, reading ends by returning either a diagram that is structurally sound (its crossings, edges, components and faces agree) and has the numbers the stream states, or no diagram together with one of the documented error codes. A diagram cut off before its last number, or whose reads start to fail before it, is never accepted, and diagrams stored completely before the damage are still read correctly. Reading never crashes, hangs, ends the process, touches memory outside its arrays, or leaks.",
  ["fault_sequences", "inputs", "crash_points"], "every truncation point, bit flip, token or number substitution, sticky or transient read error and combination",
  "Tests read a few malformed strings; they never fail a read, cut a stream at each byte, or look for leaks or out-of-range indices.",
  ["src/pdcode.c"], [("diagram reader and its checks", "src/pdcode.c pd_read_err"), ("KnotTheory reader", "src/pdcode.c pd_read_KnotTheory"), ("consistency checks", "src/pdcode.c pd_ok and the pd_*_ok family")],
  "Valid streams are damaged by the simulator (or fail while being read) and read by the real reader under AddressSanitizer; accepted diagrams go through an independent soundness check.", ["pd_read results and error codes"])
prop("C06", "A diagram store remembers exactly the diagrams it was given",
  "After any history of additions, searches, counts and (complete or abandoned) walks over one or several stores, a store holds exactly one copy of each diagram given to it: adding a diagram equivalent to a stored one, in the equivalence asked for (none, isomorphism, or diagram isotopy: same oriented, signed and tagged diagram), stores nothing and returns the number of the stored one; any other diagram gets the next number under its hash. Equivalent diagrams always have the same hash. Every walk returns every stored diagram exactly once, in order of hash and number, as the same diagram that was added (crossings, signs set or unset, orientation and tags), also diagrams without crossings; search finds a diagram exactly if an isomorphic one is stored; counts agree; the caller's diagram is not changed, and copies handed out can be changed freely.",
  ["inputs", "histories", "configurations"], "all sequences of store operations on diagrams of up to 12 crossings whose component structure keeps the isomorphism search feasible, with crossing signs all set or all unset (the packed form has no mixture); all heap contents",
  "Tests add fixed lists in one order and count; equivalence modes, collisions within a hash, unset signs, tags and abandoned walks depend on history.",
  ["src/pd_storage.c", "src/pd_pack.c", "src/pd_isomorphisms.c"], [("store", "src/pd_storage.c pd_addto_pdstor, pd_stor_firstelt, pd_stor_nextelt, pd_search_pdstor_by_isomorphism"), ("packed form", "src/pd_pack.c pd_pack / pd_unpack"), ("equivalence", "src/pd_isomorphisms.c pd_isomorphic, pd_diagram_isotopic"), ("hash", "src/pdcode.c pd_regenerate_hash")],
  "Seeded histories on one or two interleaved stores, checked after every operation against a reference store with its own brute-force isomorphism test.", ["numbers returned by pd_addto_pdstor", "walk and search results"])
prop("C08", "A diagram store on disk is read completely or refused",
  "A store written to a file, at once or incrementally, is read back by a later process as exactly the same diagrams (with deduplication: as their representatives, the first of each class), whether the header gives their number or leaves it open. If the writing process is killed, the disk fills up or fails, power is lost, an incremental file is never finished, or the file is later truncated, then reading either returns every diagram that was stored or refuses: never a partial store. A file damaged in any other way is refused or gives sound diagrams, as many as its header says. Reading never crashes, hangs or leaks.",
  ["inputs", "crash_points", "fault_sequences"], "all stores, all points at which writing can stop, all truncations and seeded damage, all ways the stream splits reads and writes",
  "Tests read files written in full by the same process.",
  ["src/pd_storage.c", "src/pdcode.c"], [("store file", "src/pd_storage.c pd_write_pdstor / pd_read_pdstor"), ("incremental store file", "src/pd_storage.c pd_start_incremental_pdstor, pd_addto_incremental_pdstor, pd_finish_incremental_pdstor")],
  "The writer runs in a simulated process on a simulated disk with crashes, full disk, I/O errors and power loss; a new process reads what is left and is compared with the reference contents.", ["pd_read_pdstor result"])
prop("C09", "A HOMFLY time limit is kept, harmless and precise under any clock",
  "Computing a HOMFLY polynomial with a time limit returns either exactly the string it returns without a limit, or nothing; nothing only if the processor clock really moved past the limit during the call, and once it has, the call returns within a bounded number of further clock readings. A limit of zero or less means no limit. Whether a call timed out or not, it leaks nothing, leaves signal dispositions alone, does not change the diagram, and later computations (with or without limit) give the correct polynomial.",
  ["schedules", "histories", "fault_sequences"], "all diagrams (explored to 80 crossings), limits and clock behaviours: jumps, crawling, standing still, stepping back, at any reading; all sequences of timed-out and finished calls",
  "Tests compute polynomials on the machine's own clock and with limits that are never reached at a chosen point.",
  ["src/plcTopology.c", "src/pllmpoly02.c"], [("time limit", "src/plcTopology.c pd_homfly_timeout"), ("polynomial computation polling the clock", "src/pllmpoly02.c")],
  "The processor clock is simulated and jumps, crawls, stalls or steps back at a seeded reading; results are compared with an undisturbed call and with a reference polynomial.", ["pd_homfly_timeout result", "clock readings made"])
prop("C10", "Invariants of diagrams are right whatever was computed before",
  "In any interleaving of computations on several oriented signed diagrams, with any contents of fresh memory and any state of the C library's random numbers: the HOMFLY polynomial (pd_homfly, pd_homfly_timeout) is the polynomial of the link (a P+ + a^-1 P- + z P0 = 0, unknot 1) whatever the numbering of crossings, edges and components; linking numbers and unsigned linking numbers are the (half) sums over the crossings between the two components; pd_is_alternating is true exactly for alternating diagrams; the signed and unsigned counts of interlaced crossings per component are those of its Gauss code; pd_simplify returns a sound diagram of the same link with no more crossings and no loops left; and pd_classify lists exactly the knot types in the library's table whose polynomial is that of the knot, with their names. Names of knot types (3_1#5_2) are read by plc_read_knottype if and only if every factor is a knot that exists and there are at most ten, and written back by plc_write_knottype as they were. Crossing-free diagrams are included. The diagrams of the caller are not changed and nothing leaks.",
  ["inputs", "histories", "configurations"], "all signed diagrams (explored to 13 crossings directly, to 30 for composites and torus links whose polynomial is known), all interleavings, heap contents and random states",
  "Tests compute a table of knots one by one in a fresh process.",
  ["src/plcTopology.c", "src/pllmpoly02.c", "src/pdcode.c", "src/pd_simplify.c"], [("polynomial", "src/plcTopology.c pd_homfly"), ("crossing code for the polynomial engine", "src/pdcode.c / src/plcTopology.c"), ("classification", "src/plcTopology.c pd_classify"), ("linking numbers", "src/pdcode.c pd_linking_number"), ("simplification", "src/pd_simplify.c pd_simplify")],
  "Seeded interleavings on random diagrams, heap contents and rand() state controlled, compared with an independent skein recursion on Gauss codes and an independent copy of the knot table.", ["results of the invariant functions"])
prop("C13", "The topology found for a space polygon does not depend on chance",
  "For every closed space polygon or link whose edges keep clear of each other, including lattice polygons with exactly vertical, parallel and overlapping edges in projection, and for every state of the random generators: pd_code_from_plCurve returns a sound, fully signed diagram of that very link (same components, orientations up to numbering, linking numbers and HOMFLY polynomial), plc_homfly returns its polynomial, and plc_classify (for knots) lists exactly the knot types of the library's table with that polynomial. An answer is always given, the curve is not moved, and nothing leaks.",
  ["inputs", "schedules", "configurations"], "all polygons with edges at least 0.1 percent of their size apart and with connected projection along z (explored to 36 edges and 15 crossings), all random streams (gsl and rand()), heap contents and repetitions",
  "Tests classify a fixed list of curves with one seed.",
  ["src/plcTopology.c"], [("projection, crossings and gluing", "src/plcTopology.c pd_code_from_plCurve"), ("random rotations after a failed attempt", "src/plcTopology.c"), ("classification", "src/plcTopology.c plc_classify, plc_homfly")],
  "Random and degenerate polygons with seeded random streams; the reference projects the polygon itself in a random direction and expands the skein relation.", ["pd_code_from_plCurve, plc_homfly, plc_classify results"])
prop("C20", "Any history of diagram moves keeps the link the moves describe",
  "After any sequence of loop additions and deletions, bigon additions and eliminations (also those that split a diagram in two), triangle flips, slides of a strand over or under a tangle, connected sums, reversals, renumberings, simplifications and copies, the diagram is sound and shows the link the moves describe: Reidemeister moves, renumbering and simplification keep the HOMFLY polynomial and the number of components and change the number of crossings as they should, a connected sum multiplies polynomials and joins components, reversing a component gives the polynomial of the link so oriented, and a split gives diagrams that together are the link (the one with the upper strand first after a bigon elimination). Loop deletion, bigon elimination, tangle slides, simplification, reversal and renumbering leave every component its tag. A Reidemeister move made on the diagram without its crossing signs gives the unsigned form of the same move. No move changes the diagram it was given (except the ones that work in place), touches memory outside its arrays or leaks.",
  ["histories", "inputs", "configurations"], "all histories (explored to 14 moves on diagrams of up to 14 crossings) and contents of fresh memory",
  "Tests apply each move once to fixed diagrams and compare with stored answers.",
  ["src/pd_crossingmoves.c", "src/pd_tangles.c", "src/pd_deletions.c", "src/pd_splitdiagram.c", "src/pd_operations.c", "src/pd_simplify.c", "src/pdcode.c"], [("loop and bigon moves, triangle flip", "src/pd_crossingmoves.c"), ("tangle slides", "src/pd_tangles.c pd_tangle_slide"), ("connected sum", "src/pdcode.c pd_connect_sum"), ("simplification", "src/pd_simplify.c"), ("reorientation and renumbering", "src/pdcode.c pd_reorient_component, pd_renumber_component")],
  "Seeded histories of moves on real diagrams with garbage-filled heap, the polynomial followed by an independent skein recursion after every move.", ["diagram after each move"])
prop("C11", "Random polygons always are what was asked for",
  "Whatever the random generator returns (also extreme, repeated or clustered values), every sampler returns a polygon with the asked number of edges, open or closed as asked, finite, with consistent wrap-around vertices and the promised lengths: total length 2 for the symmetric-measure samplers (in the plane y = 0 for the plane ones), edges of length 1 (closed) or 2/n (open) for the equilateral ones, up to 3000 edges, and vertices at least 1 apart for the self-avoiding one; plc_is_sap says whether the vertices are that far apart, within and between components. plc_loop_closure keeps the open arc, its colors and the other components and closes it to total length 2 whenever the length left suffices, and otherwise returns nothing; plc_random_vect returns unit vectors, and perturbations move no vertex further than the given radius and no constrained vertex at all. Samples follow their measure: mean squared chord lengths agree with the exact values (6k(n-k)/((n-1)n(n+1)) for closed, 6k/(n(n+1/2)) for open, 8k(n-k)/((n-1)n(n+2)) and 8k/(n(n+1)) in the plane, k(n-k)/(n-1) for closed equilateral polygons), do not depend on the starting vertex, and directions are uniform on the sphere. No memory is leaked or touched out of bounds.",
  ["inputs", "configurations", "histories"], "all random streams, sizes up to 3000 edges and contents of fresh memory",
  "Tests draw ordinary samples from a good generator; extreme values appear once in billions of draws.",
  ["src/plcRandomPolygon.c", "src/plcRandomSap.c", "src/vector.c", "src/plCurve.c"], [("samplers", "src/plcRandomPolygon.c"), ("self-avoiding sampler", "src/plcRandomSap.c"), ("plc_random_vect, plc_perturb_vect", "src/vector.c"), ("plc_perturb", "src/plCurve.c")],
  "A gsl generator whose values the simulator decides drives the real samplers; every polygon is measured directly, and means over seeded samples are compared with exact values.", ["coordinates of sampled polygons"])
prop("C12", "The same seed gives the same samples in any world",
  "Random polygons, self-avoiding polygons, loop closures, perturbed vectors, random triangulations and Markov chain expectations (value, error estimate and every polygon visited) are functions of the generator state alone: the same calls with the same seed give bit-identical results and leave the generator in the same state, whatever the contents of fresh memory, the processor clock and the time of day, the state of rand(), and the calls made before or in between with other generators.",
  ["configurations", "histories", "timing"], "all heap contents, clocks, rand() states and interleavings with other generators (explored: 1-5 calls in 2-3 worlds)",
  "A test runs in one world; it cannot see a hidden dependence on the clock, on memory contents or on earlier calls.",
  ["src/plcRandomPolygon.c", "src/plcRandomSap.c", "src/plcToricSymplectic.c", "src/plcToricSymplecticTriangulation.c", "src/geyer_estimators.c"], [("samplers", "src/plcRandomPolygon.c, src/plcRandomSap.c"), ("Markov chains", "src/plcToricSymplectic.c"), ("random triangulations", "src/plcToricSymplecticTriangulation.c")],
  "The same calls are run in several simulated worlds and compared bit by bit.", ["results of the first world"])
prop("C14", "Markov chains stay on their polygon space and report what they sampled",
  "For every random stream, triangulation (fan, spiral, teeth, random), number of edges, clock and log device: every polygon a toric symplectic chain hands to the integrand is closed and finite with unit edges (one edge of the given length for the fixed-gap chain) and stays within the confinement radius of vertex 0 for the confined chain; moment polytope steps change diagonals only and keep all triangle inequalities, dihedral steps change angles only, permutation steps keep the edge vectors; edge lengths, diagonals and angles computed from an embedded polygon are those it was built from; triangulations have n-3 non-crossing diagonals and n-2 triangles forming a tree. The expectation returned is the mean of the integrand over the steps after burn-in, the error is the 95% initial-positive-sequence error of exactly these values, the run statistics count the steps by kind, the run stops at the step limit or at the first clock check past the time limit, and the log has one complete line per logged step when its device works. Chains sample the uniform measure: mean squared chords agree with the exact values. Nothing is leaked and no buffer overflows however many edges there are.",
  ["inputs", "configurations", "timing", "histories"], "all random streams with isolated extreme values, 4 to 120 edges, clocks and log devices",
  "Tests run a few chains with a good generator and compare means within wide tolerances.",
  ["src/plcToricSymplectic.c", "src/plcToricSymplecticTriangulation.c", "src/geyer_estimators.c"], [("chain steps and expectation drivers", "src/plcToricSymplectic.c"), ("triangulations and embedding", "src/plcToricSymplecticTriangulation.c")],
  "Real chains run on a simulated generator, processor clock and log device; the integrand itself checks every polygon, and the results are recomputed from what it saw.", ["final estimates, embedded polygons"])
prop("C21", "The buffered error estimator agrees with a direct computation at any point",
  "After any history of additions and evaluations on a geyer_ips buffer of any size, the mean is that of all samples added, and the error is 1.96 sigma / sqrt(samples) with the initial positive sequence estimate of sigma over all samples (falling back to the plain standard deviation when that is negative), however often the buffer has been filled and exactly as ips_value computes it from the whole series; the estimate is declared good whenever all samples are still in the buffer, and evaluating does not disturb later results. Any number of samples works, also none and one. Nothing is leaked or overrun.",
  ["histories", "inputs"], "all series and histories (explored: up to 15 buffer lengths, buffers of 60 to 600 samples)",
  "Tests compare the buffered estimate with the plain one on single series, evaluated once.",
  ["src/geyer_estimators.c"], [("geyer_ips_add, geyer_ips_value", "src/geyer_estimators.c"), ("ips_value", "src/geyer_estimators.c")],
  "Seeded histories of additions and evaluations with garbage-filled heap against a direct computation.", ["(samples, buffer size, series kind)"])
prop("C18", "The store tools succeed only with their complete, correct output on disk",
  "Each of the six command line tools on diagram stores ends with exit status 0 only if its complete and correct output is on disk: filterpd writes exactly the elements with the wanted number of components; joinpd the union of its inputs, deduplicated as asked with the first of each class kept; splitpd consecutive pieces BASE-00001.pdstor and so on of the asked size or number that together are the input; computepd one line per diagram with the right values; connectsum every connected sum of pairs over all edge pairs and relative orientations, each once up to isomorphism; carbonizepd one C function per diagram that rebuilds it. A missing, unreadable or truncated input, a failing open, read or write, or a full disk gives a nonzero status. Inputs are never changed, no stray files are left after success, the tools never crash or hang, and run again after the trouble has passed they give the complete result; without faults they always succeed.",
  ["inputs", "fault_sequences", "crash_points"], "all stores and tool arguments (usage errors and carbonizepd's weak checking left out), all points at which an open, read or write fails or the disk is full, all ways the streams split reads and writes",
  "The suite never runs the tools; a person running them sees one healthy disk.",
  ["src/computepd.c", "src/connectsum.c", "src/splitpd.c", "src/joinpd.c", "src/filterpd.c", "src/carbonizepd.c", "src/pd_storage.c"], [("the six tools' main functions", "src"), ("file names and argument parsing", "src/argtable2.c")],
  "The tools' own main functions run in simulated processes on a simulated disk with seeded open, read and write faults and full disks; files left behind are compared with a reference model of each tool, then the tool runs again without faults.", ["exit status", "files on disk after the run"])
prop("C16", "Struts, minimum radius and ropelength are right in any history of calls",
  "For any history of octrope calls on any curves, each call reports what a comparison of all pairs of edges gives: the shortest strut, the struts within epsilon of it (or within the cutoff), every one a true local minimum of the distance between two non-adjacent edges, named once, with the right edges, positions and length; the minimum radius of curvature and the places attaining it; curve length, thickness and ropelength that follow from these. When everything wanted fits the caller's list, the list holds exactly that; otherwise it is filled with entries that qualify. The scratch memory (absent, too small, reused and dirty, of any size), the octree depth, earlier calls and the heap's contents never change an answer; bad arguments are refused with an error; the curve is not changed (except its wrap-around vertices), nothing is leaked or overrun.",
  ["histories", "inputs"], "all curves of 1 to 3 open and closed components without zero edges and exact fold-backs, edge lengths 1e-2 to 3e2 (explored: up to 140 edges), all list sizes, cutoffs, epsilons, stiffnesses and memory sizes; the count reported for a list of size 0 and octrope_est_mem's estimate are not claimed",
  "Tests measure a handful of fixed curves, one call per process, with room for everything.",
  ["src/octrope.c", "src/octmem.c", "src/minrad.c"], [("octrope_struts, octrope, octrope_poca, octrope_thickness, octrope_ropelength", "src/octrope.c"), ("octrope_minrad, octrope_minradval", "src/minrad.c"), ("scratch memory manager", "src/octmem.c")],
  "Seeded histories of interleaved calls on several curves with garbage-filled heap and reused, dirty, too small or missing scratch memory against an all-pairs reference.", ["struts and places listed", "lengths, radii, thickness, ropelength", "error numbers"])
prop("C15", "Nearest point queries are right whatever precomputed data is passed",
  "plc_nearest_neighbor and plc_nearest_vertex return a point at the least distance from the query, for every point set, query and history of queries and with any precomputed data handle: none, fresh, kept from earlier queries, freed and reused, or kept for another buffer or curve. In that last case the answer is still right and PLC_E_STALE_PCDATA is reported; otherwise no error is. The data handle is filled after each call and cleared when freed; nothing is leaked. (Changing or freeing the points while keeping their data is a caller error and left out.)",
  ["histories", "inputs"], "all point sets and queries (explored: 1 to 7000 points, ties, clusters, lattices, lines, queries on and far from the points)",
  "Tests query fixed point sets with fresh data.",
  ["src/nearest_neighbor.c"], [("plc_nearest_neighbor, plc_nearest_vertex", "src/nearest_neighbor.c"), ("plc_nearest_neighbor_pc_data_free, plc_nearest_vertex_pc_data_free", "src/nearest_neighbor.c")],
  "Seeded histories of queries over several point sets and handles, with garbage-filled heap, against a look at every point.", ["index and distance of the answer", "error code", "handle"])
prop("C23", "A strut file is read back exactly or refused",
  "Lists of struts and minimum-radius places written by octrope_strutfile_write and read by octrope_strutfile_read come back with the same edges, vertices, and bit-equal positions, lengths, radii and compressions (the neighbour index svert is not stored). A file that is missing parts, damaged so that it is no strut file, names edges or vertices the curve does not have, or is on a device whose reads fail, is refused: an error number and message are set, both lists are NULL and both counts 0. Whatever is accepted only names edges and vertices of the curve. Reading never crashes, hangs, overruns or leaks, also when memory for the lists is refused.",
  ["inputs", "fault_sequences", "crash_points"], "all lists and curves, all points at which a write or read fails, the disk fills up or the process is killed, all truncations and damages (a cut within the digits of the very last number cannot be told from a complete file)",
  "Tests never read a strut file back, let alone a damaged one.",
  ["src/octrope.c"], [("octrope_strutfile_write, octrope_strutfile_read", "src/octrope.c")],
  "Write by a simulated process with seeded disk faults and kill points, then damage, then read through chunked and failing streams; an independent parser says what the file holds.", ["lists read", "error number", "lists after refusal"])
prop("C22", "The curve tools succeed only with their complete, correct output",
  "Each of the five command line tools on curves ends with exit status 0 only if its complete and correct output is there. randompolygon writes exactly the asked number of samples under the asked name and in the asked form (VECT, csv, chord lengths), each a closed polygon with the asked number of unit edges that is confined, leaves the asked gap, is self-avoiding or has the asked knot type when that was asked, and the same seed gives the same samples; plcurvature writes position, curvature and radius of every vertex; struts and mrlocs write (or count) the struts and minimum radius places that the library finds; ropelength prints the ropelength, thickness, radius and strut of every file and the least of several. A missing, unreadable or damaged input, a failing open, read or write, or a full disk gives a nonzero status. Inputs are never changed, no stray files are left after success, the tools never crash or hang, and run again after the trouble has passed they give the complete result; without faults they always succeed.",
  ["inputs", "fault_sequences", "crash_points"], "all curves the measurements of C16 are claimed for and all combinations of the tools' documented options except plotting, --excesslength and --diameter; all points at which an open, read or write fails or the disk is full, all ways streams split reads and writes, old results in the way",
  "The suite never runs the tools; a person running them sees one healthy disk.",
  ["src/plcrwalk.c", "src/plcurvature.c", "src/struts.c", "src/mrlocs.c", "src/ropelength.c", "src/plCurve.c"], [("the five tools' main functions", "src")],
  "The tools' own main functions run in simulated processes on a simulated disk with seeded open, read and write faults, full disks and leftovers; output files and printed results are compared with a model of each tool, then the tool runs again without faults.", ["exit status", "files on disk after the run", "printed results"])
prop("C24", "The diagram expansion tools and knottype give complete, correct results",
  "Each of the tools processpdstor, orientedshadows, shadow2diagram and knottype ends with exit status 0 only if its complete and correct output is there. processpdstor writes for every code of every input, in order, one record for each asked orientation and crossing assignment (all of them, each once, or one per diagram isotopy class) with the right number, signs, and code (Millett/Ewing, KnotTheory) or knot types and polynomial; simplified, unsimplifiable or wanted-component codes only when asked. orientedshadows writes the shadows of its inputs, one per isomorphism class, without crossing information; shadow2diagram every diagram that orientations and crossing choices make of its shadows, one per diagram isotopy class, in the asked form, and reports the true counts. knottype -h, -k, -v and -p print the HOMFLY polynomial, possible knot types, verdict on the type named by the file, and a PD code of every curve. A missing, unreadable or incomplete input, a failing open, read or write, or a full disk gives a nonzero status. Inputs are never changed, no stray files are left after success, the tools never crash or hang, and run again after the trouble has passed they give the complete result; without faults they always succeed.",
  ["inputs", "fault_sequences", "crash_points"], "all stores and curves (explored: up to 9 crossings and 1024 expansions per code) and the named options; all points at which an open, read or write fails or the disk is full, all ways streams split reads and writes, old results in the way (knottype -l, -m, -# and --verbose and what shadow2diagram --count-only leaves in its file are left out)",
  "The suite never runs the tools; a person running them sees one healthy disk and cannot check thousands of expanded diagrams.",
  ["tools/processpdstor.c", "tools/orientedshadows.c", "tools/shadow2diagram.c", "tools/knottype.c", "src/pd_storage.c", "src/pd_multidx.c", "src/plcTopology.c"], [("the four tools' main functions", "tools"), ("incremental stores", "src/pd_storage.c"), ("iteration over orientations and signs", "src/pd_multidx.c")],
  "The tools' own main functions run in simulated processes on a simulated disk with seeded open, read and write faults, full disks and leftovers; output is compared with an independent expansion up to isotopy and an independent skein computation, then the tool runs again without faults.", ["exit status", "files on disk after the run", "printed results"])
prop("C25", "Curves in n dimensions survive files, damage and any history of operations",
  "A curve in any number of dimensions written by nplc_write and read by nplc_read in another process comes back with the same dimension, components, vertices and colors to printed precision, however the streams split the data and whatever the heap holds; a curve in three dimensions is an ordinary VECT file. A file that lacks its keyword, is truncated before its last number, or is on a device whose reads fail gives no curve, but an error number and a message that fits the caller's buffer; a damaged file is refused or gives a well-formed curve; reading never crashes, hangs, overruns or leaks. In any history of operations (copying, extracting a component, reversing, moving vertices, opening and closing with fixed wrap-around vertices, counting edges and vertices, lengths of components and arcs, vector arithmetic, printing and vector buffers) each result is that of the mathematical definition in n dimensions, the other curves are untouched, and nothing is leaked.",
  ["inputs", "fault_sequences", "histories"], "all curves without constraints and all histories (explored: 1 to 9 and 100 to 900 dimensions, up to 14 operations on up to 4 curves), all truncations, damages and failing reads; files with constraints are left out",
  "The suite's tests of n-dimensional curves use a handful of fixed vectors and never read a damaged file.",
  ["src/nplCurve.c", "src/nvector.c"], [("nplc_read, nplc_write", "src/nplCurve.c"), ("curve operations", "src/nplCurve.c"), ("vectors", "src/nvector.c")],
  "Write by one simulated process, damage, read by another through chunked and failing streams; seeded histories of operations with garbage-filled heap against a model.", ["curve read", "error number and message", "curves after each operation"])
prop("C19", "Judy arrays are ordered sets and maps through any history",
  "The bundled Judy arrays hold exactly what was put in and not taken out, in any history of operations. Judy1 and JudyL: insertion says whether the index was new and keeps the value of a present one, a new value is 0; deletion says whether the index was there; lookup, first, last, next, previous, the four searches for an empty index, counts of any range, access by count, and construction from a sorted list agree with an ordered map of machine words, in both directions, at the ends of the index range and for several arrays used in turn; an array without elements is the null pointer; freeing gives back the memory reported as used. If an allocation fails during an insertion or deletion, the call either succeeds or reports that memory ran out and leaves contents and values as they were, and works again when memory is there. JudySL and JudyHS do the same for strings and byte strings (searches in byte order for JudySL) while memory lasts. Nothing is leaked (unless memory ran out) or overrun.",
  ["histories", "inputs", "fault_sequences"], "all histories and keys (explored: up to 5 phases of up to 6000 operations with keys sharing bytes in 8 ways, strings up to 70 bytes), all points at which allocations fail during Judy1 and JudyL insertions and deletions (JudySL, JudyHS and construction from lists are claimed with enough memory and sorted lists only)",
  "The suite never tests the arrays themselves; the stores built on them use few of their forms.",
  ["judy/src/JudyCommon/JudyIns.c", "judy/src/JudyCommon/JudyDel.c", "judy/src/JudyCommon/JudyPrevNext.c", "judy/src/JudySL/JudySL.c", "judy/src/JudyHS/JudyHS.c"], [("insertion and cascading", "judy/src/JudyCommon/JudyIns.c"), ("deletion", "judy/src/JudyCommon/JudyDel.c"), ("strings", "judy/src/JudySL/JudySL.c")],
  "Seeded histories over one or two arrays with failing allocations and garbage in fresh memory against std::map.", ["return values, found indexes, counts", "contents after each failed allocation and phase"])
prop("C26", "Splines and symmetry groups follow their curve through any history",
  "plc_convert_to_spline gives the cubic spline through the vertices of every open and closed component, parametrised by length along the polygon, with the curve's tangents at its ends, and leaves the curve alone; plc_sample_spline and plc_spline_tangent give its points and derivatives at any length (closed components repeat); plc_convert_from_spline gives any number of vertices equally spaced in that length, from the first vertex to the last one of an open component, with colors interpolated between those of the neighboring vertices and constraints carried to the corresponding vertices, in range. The groups of rotations about an axis and of reflections in a plane are made exactly for curves they map to themselves up to noise (each vertex to the nearest one, no two to the same), with the right matrices, targets and inverses. In any history of copying, symmetrizing curves and variations, rotating, scaling, translating, adding and dropping components, composing symmetries and freeing, a group stays with its own curve and turns with it, symmetrizing gives each vertex the mean over its orbit, the checks report the largest deviation, and what destroys a symmetry removes the group. Nothing crashes, overruns or leaks.",
  ["inputs", "histories"], "all curves with distinct consecutive vertices and all histories (explored: up to 18 vertices per component, resampled to up to 400, groups of up to 8 elements, up to 8 operations on up to 4 curves), whatever fresh memory holds; lengths within an open component; plc_symmetrize over plc_coordplanes_reflection_group, which is no group, only for curves that are symmetric already",
  "The suite has no test of splines or symmetries.",
  ["src/splines.c", "src/symmetries.c", "src/matrix.c", "src/plCurve.c"], [("splines", "src/splines.c"), ("symmetries and groups", "src/symmetries.c"), ("groups carried by copies and rotations", "src/plCurve.c")],
  "Seeded histories with garbage-filled heap; the reference solves the spline conditions by elimination and finds targets by looking at all vertices.", ["sampled points, tangents, resampled curves", "groups, curves and deviations after each operation"])
prop("C27", "Whether two diagrams are the same is decided right, and every way is listed",
  "For any two diagrams, whatever was asked before: pd_isomorphic (and pd_isomorphic_strings, from the letters of their crossings) says yes exactly if the diagrams are the same or mirror images as maps of the sphere, ignoring signs, tags and directions; pd_map_isomorphic exactly if they are the same map of the oriented sphere; pd_diagram_isotopic exactly if such a map, possibly turning the sphere inside out, also preserves every crossing sign, component tag and direction. pd_build_isos, pd_build_map_isomorphisms and pd_build_diagram_isotopies list every such map once and no other (diagrams of more than two crossings whose components have at least three edges each; for smaller ones at least one), and the parts of each map (components, edges with directions, crossings, faces, side of the sphere) fit each other and both diagrams. The symmetries of a diagram contain the identity, which is recognised, are closed under pd_compose_isos, which is one map after the other, and have their true period. The diagrams compared stay as they were and all memory is given back.",
  ["inputs", "histories"], "all connected diagrams with valid structure and distinct tags and all histories of questions (explored: up to 14 crossings, mostly one to three components, 3-25 questions in a pool of up to six diagrams), whatever fresh memory holds; maps between circles without crossings are only counted",
  "Tests compare a few fixed diagrams with themselves and with renumbered copies; the answer must be right for all pairs, including different diagrams of equal hash and pairs related only by a reflection.",
  ["src/pd_isomorphisms.c", "src/pd_perm.c", "src/pd_multidx.c", "src/pd_dihedral.c", "src/pd_cyclic.c", "src/pd_container.c", "src/pdcode.c"], [("isomorphisms, isotopies, symmetries", "src/pd_isomorphisms.c"), ("pd_isomorphic_strings", "src/pdcode.c")],
  "Seeded histories over a changing pool with garbage-filled heap; the reference maps one half-edge and follows the diagram around.", ["answers", "maps returned, judged against both diagrams"])
prop("C28", "Random planar maps are of the kind and size asked for, uniform and reproducible",
  "For any history of requests to the planar map library (pmSetParameters, pmMemoryInit, pmExtendMemory, pmPlanMap, pmFreeMap; 2-, 3- and 4-edge-connected cubic, quartic, 4- and 6-edge-connected quartic, bipartite quartic and cubic, and quartic maps with two legs): each result is a rooted map of the sphere, with the number of vertices asked for (by vertices, edges or faces), or within the tolerance for the kinds obtained by extraction; all degrees, edge-connectivity and bipartiteness are those of the kind (four edges may cut off a single vertex of a 6-edge-connected map, three of a 4-edge-connected cubic one); limits on the number of loops and numbers of faces of each color are obeyed; the distance between the two legs is the least number of edges to cross. The counts of vertices and faces, the labels and the lists of edges, vertices and faces are right, the loops are counted right (pmStatGauss), a printed map or dual (formats 1, 2, 3, 6) is the map, and pmBicolorFaces and pmEdgeMap turn a quartic map into a general map with one edge per vertex, nonseparable if the quartic one is 4-edge-connected. The rooted maps of a given size of the kinds not obtained by extraction are equally likely, the same seed gives the same maps, and freeing a map gives its memory back.",
  ["inputs", "histories", "randomness"], "all kinds named, sizes and seeds (explored: 1-400 vertices, extracted kinds 8-120; connectivity of maps of up to about 20 vertices; uniformity for up to 378 different maps), requests that can be met; whatever fresh memory holds",
  "The tests only use two of the kinds, indirectly, to make diagrams; a wrong distribution or a cut too many shows in no single sample.",
  ["planarmap/PMplanmap.c", "planarmap/PMconjugation.c", "planarmap/PMextract.c", "planarmap/PMenlight.c", "planarmap/PMdef.c", "planarmap/PMdisplay.c", "planarmap/stats.c"], [("sampling", "planarmap/PMplanmap.c"), ("trees and their closure", "planarmap/PMconjugation.c"), ("extraction", "planarmap/PMextract.c"), ("labels, faces, general maps", "planarmap/PMenlight.c")],
  "Seeded histories of requests with garbage-filled heap and a repetition from the same seed; maps are judged by cutting edges, walking faces and following loops, distributions by counting canonical codes.", ["maps returned", "printed output"])
na("N03", "Group enumeration routines are complete",
  "The permutation, dihedral, cyclic and multi-index iterators list every group element exactly once.",
  ["inputs"], "all group orders", "Tests sample small orders.", ["src/pd_perm.c", "src/pd_dihedral.c", "src/pd_multidx.c"], [("iterators", "src/pd_multidx.c")],
  "Pure enumeration without time, I/O, randomness or shared state. As used by the search for isomorphisms they are exercised by C27 and C06.")
