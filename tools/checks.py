CHECKS = {
    "C01": dict(harness="c01", technique="bounded-exhaustive enumeration of material triples around every decision boundary, all query orders, against the defining formulas",
                note="all triples over 33x33x17 values (boundary neighbours, signed zeros, infinities, NaN) executed on the real class"),
    "C02": dict(harness="c02", shards=8, technique="exhaustive enumeration of orthogonal polarisation/propagation lattice pairs, scalings, shifts and truncated positions on the real plane-wave code against the closed form",
                note="every orthogonal pair of the {-2..2}^3 lattice, both field types, two profiles"),
    "C03": dict(harness="c03", shards=4, technique="exhaustive enumeration of profile parameters and position grids on the real profiles against independent long-double series and closed forms",
                note="all parameter combinations and all grid points in one, two and three coordinates"),
    "C04": dict(harness="c04", shards=8, technique='exhaustive enumeration of ordered lists of up to three initial excitations on seven mesh/order configurations, started on the real solver, against the closed-form sum at every node',
                note='all ordered lists of up to three excitations from a pool of six (two in 3-D) for two formulations'),
    "C05": dict(harness="c05", shards=8, technique="explicit-state exploration of every operation history on two collections up to depth 4, replayed on the real containers against a value-list model",
                note="every legal history of 15 operations on two collections up to depth 4, every probe-set history of 6 operations up to depth 4"),
    "C06": dict(harness="c06", shards=8, technique='exhaustive enumeration of tag numberings, material and condition assignments, declaration orders and groupings in case files read by the real driver on one to three ranks, against the declaration itself',
                note='four boundary tags, three regions, all assignments and orders in the stated products'),
    "C07": dict(harness="c07", shards=8, technique='exhaustive application of every single corruption, every benign variation and every corruption-variation pair to a family of valid case files read by the real driver and solver; refused, accepted or memory misuse',
                note='six base cases in one to three dimensions, all documented required entries and enumerated strings'),
    "C08": dict(harness="c08", shards=8, technique='exhaustive enumeration of every subset of the ten documented option keys with two or three values each, and of all ordered triples of direct setters, against the default record',
                note='all 104976 subsets and value choices'),
    "C09": dict(harness="c09", shards=8, technique='exhaustive enumeration of probe declarations (kinds, counts, names, positions, components, cadences) and run timings read by the real parser, against the declaration',
                note='up to two probes per kind, nine cadences, 42 run timings with and without explicit times'),
    "C10": dict(harness="c10", shards=8, technique='exhaustive enumeration of source entries (kind, magnitude, field type, polarisation, propagation, vector lengths), ordered pairs and triples, and of automatic delays over meshes, directions, tag sets and rank splits, evaluated against closed forms',
                note='five meshes, ten directions, up to three entries and three ranks'),
    "C11": dict(harness="c11", shards=8, technique='exhaustive enumeration of entity sequences in mesh files, loaded repeatedly by the real code, and of every choice of delayed process among up to three, against a line-level model of the clean file',
                note='sequences of up to four entities over nine types, all pairs of twelve types; one delayed rank at a time'),
    "C12": dict(harness="c12", shards=8, technique='exhaustive enumeration of case paths, folder names, declared mesh names, extensions and files present, loaded by the real code among decoy meshes',
                note='ten directories, eleven names, up to two deviations from the convention at once'),
    "C13": dict(harness="c13", shards=8, technique='exhaustive enumeration of layer widths, materials, source sets, overrides and stacks of one to three layers through the real case reader, against the stated resolution rule',
                note='57 source sets x 240 layers, all overrides and end conditions, stacks from five layers on one to three ranks'),
    "C14": dict(harness="c14", shards=8, technique='exhaustive enumeration of all proposed partitions and all choices of total-field and thin-panel faces on small meshes, through the real model builder on simulated ranks, against the co-location requirement',
                note='meshes of 4 to 6 elements in one to three dimensions, two and three ranks'),
    "C15": dict(harness="c15", shards=8, technique='exhaustive exploration of time-loop histories on the real solver (run, single steps, extensions) over a grid of final times around exact multiples, against a step-count model',
                note='7 integrators x 4 steps x run lengths around 0..100 steps, all histories of 5 operations up to depth 4'),
    "C16": dict(harness="c16", shards=8, technique='exhaustive enumeration of probe cadences (explicit intervals, save counts, automatic step) and run lengths for all six probe kinds alone, in pairs and together, outputs read back against the schedule model',
                note='run lengths 0..6 steps, intervals 1..7, save counts 1..9'),
    "C17": dict(harness="c17", shards=8, technique='exhaustive enumeration of probe positions (vertices, faces, interiors, outside), fields and components on seven meshes, files compared with an independent polynomial interpolation of the discrete solution',
                note='all grid positions x 6 components x 7 mesh/order configurations, single and grouped probes'),
    "C18": dict(harness="c18", shards=8, technique='exhaustive enumeration of recording windows, counts, steps and run lengths on the real solver with files read back against the recorded states',
                note='2 steps x 2 run lengths x 30 windows x 6 counts, one or two probes'),
    "C19": dict(harness="c19", shards=8, technique='the recording is parsed after every step of every run in the bound (a reader at each moment) and compared with geometry and solver state',
                note='seven surfaces, intervals 1..4, runs of 0..5 steps, one or two tags'),
    "C20": dict(harness="c20", shards=8, technique='exhaustive enumeration of meshes, orders, CFL factors, scalings, refinements and option combinations on the real solver; energy of every initial state through the full amplification matrix',
                note='bounds: see DESIGN.md'),
    "C21": dict(harness="c21", shards=8, technique='explicit-state exploration of all run sequences on the real solver and driver, comparing the complete file tree after each run with the run alone',
                note='sequences of up to three runs: 2 cases x 8 recording sets x 2 lengths (pairs of any, triples of the same set), 64 case-file runs, 1 and 2 processes'),
    "C22": dict(harness="c22", shards=8, technique='Exhaustive enumeration of small surface recordings (meshes, orders, node sets, field patterns, times, frequencies, angles) and of every distribution of their elements over up to three rank recordings, run through the real post-processor and compared with an independently integrated definition; recordings of real runs on one, two and three simulated ranks for every distribution of the cells',
                note='real post-processor and exporter on the MFEM stand-in; 10 recordings, all component pairs, 4 time grids, all 2^n or 3^n element distributions for n<=8 elements, every result row compared'),
    "C23": dict(harness="c23", shards=8, technique='Exhaustive crash-point exploration: the real post-processor is run on recordings truncated at every byte offset, for each rank file, and compared with the recording cut at the last complete record and with the definition',
                note='every byte offset of five small recordings (one and two ranks), real reader'),
    "C24": dict(harness="c24", shards=8, technique='Exhaustive enumeration of time cut-offs at, next to, between and around all record times and of in-plane/out-of-plane angles in every list position, on the real post-processor, compared with the shortened recording and the definition',
                note='four meshes x four time grids x one or two ranks, cut-offs to one unit in the last place; 34 polar angles'),
    "C25": dict(harness="c25", shards=8, technique='Exhaustive enumeration of post-processing requests (step counts 1-4 in each range, ascending and descending, one or two probes, optional entries, all missing mandatory entries) through the real request driver; complete result trees compared with the definition, followed by a second request on the same data',
                note='step counts up to 4 (6 thorough) per range in 2-D and 3-D; 24 kinds of invalid request'),
    "C26": dict(harness="c26", shards=8, technique='Exhaustive enumeration over grids of inputs of each far-field helper against its definition, all subsets of snapshot directory names, all magnitude patterns of up to five frequencies, all distributions of small recordings over three ranks and all row-count patterns of up to three rank files for merging',
                note='helpers called directly in the unmodified code; merging driven through the legacy reader and, where present, on hand-made result files'),
    "C27": dict(harness="c27", shards=8, technique='exhaustive enumeration of element orders, rotations, face listings and vertex labels of small meshes on the real extraction, geometric oracle',
                note='bounds: see DESIGN.md'),
    "C28": dict(harness="c28", shards=8, technique='exhaustive enumeration of admissible numberings, rotations and face listings of small meshes on the real extraction, geometric oracle',
                note='bounds: see DESIGN.md'),
    "C29": dict(harness="c29", shards=8, technique='exhaustive enumeration of monomial fields over meshes, orders, fluxes, materials, boundary assignments and formulations on the real operators, compared with exact polynomial curls',
                note='bounds: see DESIGN.md'),
    "C30": dict(harness="c30", shards=8, technique='exhaustive enumeration of boundary, sheet, material, flux and order combinations; the whole state space of each is decided through the matrix of its energy rate',
                note='bounds: see DESIGN.md'),
    "C31": dict(harness="c31", shards=8, technique='exhaustive comparison of all unit states under every formulation and assembly route, over boundary, sheet, material, flux and order combinations',
                note='bounds: see DESIGN.md'),
    "C32": dict(harness="c32", shards=8, technique='exhaustive enumeration of side conditions, single-face changes, element separations by sheets and bare tags, over all unit states of every formulation',
                note='bounds: see DESIGN.md'),
    "C33": dict(harness="c33", shards=8, technique='exhaustive enumeration of element orders, local rotations, vertex numberings, face lists and rank distributions, over all unit states',
                note='bounds: see DESIGN.md'),
    "C34": dict(harness="c34", shards=8, technique='exhaustive enumeration of waves, times, meshes and formulations on the real operators, exact-cut oracle',
                note='bounds: see DESIGN.md'),
    "C35": dict(harness="c35", shards=8, technique='exhaustive enumeration of step-size sequences for every integrator over all unit states, stage equations, large and distributed systems',
                note='bounds: see DESIGN.md'),
    "C36": dict(harness="c36", technique="exhaustive enumeration of lattice normals and branch-threshold neighbourhoods on the real frame builder, algebraic oracle",
                note="all normals of {-7..7}^3 plus threshold neighbours in 1, 2 and 3 dimensions, four lengths each"),
    "C37": dict(harness="c37", shards=8, technique='exhaustive enumeration of layer stacks, intervals, rotations and advance histories on the real panel model, own mesh and own implicit step as oracle',
                note='stacks of up to three layers from a grid of widths (1e-12..1), cells, orders and materials; every unit state for one-layer stacks, advance histories up to 4, all signed axis rotations'),
    "C38": dict(harness="c38", shards=8, flags=("-DSEMBA_DGTD_ENABLE_OPENMP",), technique='explicit-state exploration of evaluation/checkpoint/completion histories and of all worker schedules (controlled OpenMP runtime, bounded preemptions) on the real coupling, per-face oracle',
                note='histories of up to 2 steps with up to 2 evaluations each (3 steps thorough), 1-3 workers, all assignments of faces to workers, up to 1 preemption (2 thorough)'),
    "C39": dict(harness="c39", shards=8, technique='exhaustive enumeration of a grid of panels, bands, pole limits and tolerances and of exact rational targets on the real fit',
                note='bounds: see DESIGN.md'),
    "C40": dict(harness="c40", shards=4, technique="exhaustive enumeration of lattice vectors, scalings and angle grids on the real conversions, round-trip and basis oracle",
                note="all vectors of {-5..5}^3 at four scales plus the full angle grid"),
    "C41": dict(harness="c41", shards=8, technique='exhaustive enumeration of panel arrangements and cell numberings on the real coupling, own per-face oracle',
                note='all subsets of up to 4 interior faces (pairs of up to 6), all element permutations of meshes with up to 4 cells, 5 panel kinds, 4 senses'),
    "C42": dict(harness="c42", shards=8, technique='model checking: whole cases run on simulated ranks, over all initial distributions',
                note='All distributions of 4 to 9 cells over two and three ranks, for 1-D to 3-D cases with waves, initial fields, panels, two formulations and explicit/implicit integrators; fields compared node by node with the one-rank run.'),
    "C43": dict(harness="c43", shards=8, technique='exhaustive exploration of run lengths, recording intervals, probe combinations and process distributions; every file read back after every step and compared node by node with the solver',
                note='Bounds: 13 mesh/order/basis configurations, intervals 1-3, 0-4 steps, all 7 probe combinations; all 2- and 3-process distributions of small meshes, near fields included.'),
    "C44": dict(harness="c44", shards=8, technique='exhaustive enumeration of unit states and recorded states, exported file against the solver',
                note='All unit states of every mesh, order, flux, material and boundary combination in the bound; the exported text is parsed and multiplied.'),
    "C45": dict(harness="c45", shards=8, technique='exhaustive enumeration of argument sequences on the real launcher, each in its own process',
                note='All argument sequences up to the length bound; outcome compared with a reading of the sequence and the files of a direct run.'),
    "C46": dict(harness="c46", shards=8, technique='exhaustive enumeration of argument sequences on the real launcher, each in its own process',
                note='All argument sequences up to the length bound; outcome compared with a reading of the sequence and the files of a direct run.'),
}
NA_REASON = {}
