#!/usr/bin/env python3
"""Single source of /verif/properties.jsonl (run: python3 tools/gen_properties.py)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            mechanism=[dict(name=n, where=w) for n, w in mech],
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            observe_at=list(observe), hook_needed=hook)))

p("C01", "Materials accept only physical constants and report consistent wave values",
  "A material is created exactly when its relative permittivity and permeability are at least one and its conductivity is not negative; any other triple is refused with an error. "
  "An accepted material returns the constants it was given, and for a lossless one impedance is sqrt(mu/eps), admittance its inverse and wave speed 1/sqrt(eps mu), while a lossy one refuses those three queries. "
  "The natural-unit constants are mutually consistent (unit light speed and impedance, SI light speed 1/sqrt(eps0 mu0)).",
  ["inputs"], "All triples (eps, mu, sigma) of a boundary-value grid around the admissible limits, plus copies and assignments of materials.",
  "The suite probes a dozen hand-picked triples; the acceptance region and the algebraic identities are claims about every triple.",
  ["src/components/Material.cpp", "src/components/Material.h", "src/math/PhysicalConstants.h"],
  [("constructor validation", "Material::Material"), ("lossless-only getters", "Material::getImpedance/getAdmittance/getSpeedOfWave")],
  ["public Material API", "physicalConstants"])

p("C02", "Plane waves are transverse, normalised and purely travelling",
  "For every polarisation and propagation vector, a plane-wave excitation's E, H and propagation directions form a right-handed orthogonal triad with equal E and H amplitudes given by the time profile, whatever the lengths of the vectors supplied and whichever of the two fields the polarisation was given for. "
  "Moving along the propagation direction by a distance and later by the same time leaves the value unchanged, and moving across it never changes it. "
  "One- and two-coordinate positions give the same value as the same position padded with zeros.",
  ["inputs"], "All polarisation/propagation pairs from an integer direction grid, both field types, several profiles, a space-time grid, and 1/2/3-coordinate positions.",
  "Existing tests use one axis-aligned direction; the triad and travelling-wave laws quantify over all directions, positions and times.",
  ["src/math/Function.h", "src/components/Sources.cpp"],
  [("direction normalisation and H = k x E construction", "Planewave::eval"), ("field/polarisation dispatch", "TotalField::eval")],
  ["Planewave / TotalField evaluation"])

p("C03", "Excitation profiles evaluate to their closed form in every dimension",
  "Each built-in spatial or temporal profile (Gaussian, modulated Gaussian, sinusoidal mode, circular and spherical Bessel modes, dipole pulse, 2-D TM mode and its derivatives) evaluates to its defining formula with the parameters it was built with, for positions with one, two or three coordinates. "
  "A profile never depends on coordinates beyond those it is defined over, and evaluating it does not change it.",
  ["inputs", "configurations"], "A grid of profile parameters x positions of each dimensionality, including the centre, symmetric points and points on either side of the origin.",
  "Tests evaluate a few profiles at a few points; parameter/dimension combinations are not covered.",
  ["src/math/Function.h", "src/math/Calculus.h"],
  [("profile classes", "math/Function.h"), ("dimension-specific formulas", "Function::eval overrides")],
  ["Function::eval"])

p("C04", "Initial fields superpose exactly the declared excitations",
  "When a simulation starts, each of the six field components at each node equals the sum over all declared initial excitations of profile(position - centre) times that component of the polarisation, for excitations of that field type only. "
  "Components no excitation feeds are exactly zero, and the order in which excitations are listed does not matter.",
  ["inputs", "configurations"], "All multisets of up to three initial excitations from a pool varying field type, polarisation, centre and profile, over 1-D and 2-D meshes and orders.",
  "Tests start from one excitation at a time.",
  ["src/solver/SourcesManager.cpp", "src/components/Sources.cpp"],
  [("projection and accumulation of initial fields", "SourcesManager::setInitialFields"), ("field type and polarisation filter", "InitialField::eval")],
  ["fields after construction"])

p("C05", "Source and probe collections behave as independent values",
  "Copying, assigning, moving or cloning a collection of excitations yields a collection that evaluates identically, and later additions, assignments or destruction of either one never affect the other. "
  "No sequence of such operations changes what an existing collection evaluates to.",
  ["histories"], "All operation sequences up to a bounded length over {add, copy-construct, copy-assign, self-assign, move, destroy} on two collections.",
  "Value semantics is a claim about histories; unit tests build each collection once.",
  ["src/components/Sources.cpp", "src/components/Sources.h", "src/components/Probes.h", "src/math/Function.h"],
  [("deep clone on copy", "Sources copy constructor/assignment"), ("per-class clone", "Source::clone, Function::clone")],
  ["collection contents and evaluations"], state=[("container", "owned excitation list", "Sources")])

p("C06", "Every region and boundary tag gets exactly its declared material or condition",
  "After a case file is read, each mesh region carries exactly the permittivity, permeability and (unit-converted) conductivity declared for its tag, regions not mentioned are vacuum, and each boundary or interface tag is governed by exactly the one condition declared for it, on the outer boundary or in the interior according to where its faces lie. "
  "No tag is left in two classes, dropped, or given a neighbour's data, whatever the numbering or order of declarations.",
  ["inputs", "configurations"], "All assignments of materials and conditions to the tags of small meshes with up to four boundary tags (outer and interior) and three regions, in every declaration order.",
  "Parser tests use one fixed file each; the mapping quantifies over all tag assignments and orders.",
  ["src/driver/driver.cpp", "src/components/Model.cpp"],
  [("attribute maps from JSON", "driver assembleAttributeToMaterial/Boundary"), ("marker arrays per condition", "Model constructor"), ("piecewise coefficient vectors", "Model::buildEpsMuPiecewiseVector/buildSigmaPiecewiseVector")],
  ["Model accessors built by driver::buildModel"])

p("C07", "Malformed case definitions are refused, never silently reinterpreted",
  "A case that names an unknown field type, direction, boundary condition, source kind, magnitude or evolution operator, gives a non-positive boundary tag, a material for a region or a panel for a boundary the mesh lacks, an unphysical material, invalid options or a mixed element-type mesh, or omits an entry documented as required is rejected with an error before any simulation step. "
  "Every well-formed case in the same family is accepted.",
  ["inputs", "fault_sequences"], "All single-point corruptions (wrong string, missing key, wrong tag, wrong sign) of a set of valid case files, and all pairs on the smaller ones.",
  "Tests cover a handful of bad inputs; silent acceptance of any other one is invisible to them.",
  ["src/driver/driver.cpp", "src/components/Model.cpp", "src/solver/Solver.cpp"],
  [("string-to-enum conversion with error", "driver assign* helpers"), ("tag validation", "Model / assembleAttributeTo*"), ("option validation", "Solver::checkOptionsAreValid")],
  ["exceptions from buildModel/buildSources/buildProbes/buildSolverOptions/Solver"])

p("C08", "Each solver option given takes effect, each omitted one keeps its default",
  "Reading the options of a case sets exactly the options that are present to the given values and leaves every other option at the default it has when no options are given at all. "
  "Options are independent: the effect of one never depends on which others are present or on their order.",
  ["inputs", "configurations"], "Every subset (up to a bound) of the documented option keys, each with two or more values.",
  "Tests set one or two options per file; independence is a claim over all subsets.",
  ["src/driver/driver.cpp", "src/solver/SolverOptions.h", "src/evolution/EvolutionOptions.h"],
  [("option parsing", "driver::buildSolverOptions"), ("fluent setters", "SolverOptions")],
  ["SolverOptions returned by driver::buildSolverOptions"])

p("C09", "Declared probes are all built with the declared position, name and cadence",
  "Every probe entry of a case becomes exactly one probe of that kind with the declared name, position, component, tags and time window, in declaration order. "
  "Its output interval is the explicit step count if one is given, otherwise the number of time steps in the run divided by the number of saves but never less than one.",
  ["inputs", "configurations"], "All combinations of up to two probes per kind with every steps/saves/omitted choice and a grid of run lengths and time steps.",
  "Tests parse one probe set; interval arithmetic over all (T, dt, saves) is not covered.",
  ["src/driver/driver.cpp", "src/components/Probes.h"],
  [("probe parsing", "driver::buildProbes"), ("interval arithmetic", "buildProbes calculate_interval")],
  ["Probes returned by driver::buildProbes"])

p("C10", "Declared sources are built with the declared physics and units",
  "Every source entry of a case becomes exactly one excitation whose value at every point and time is the one its entry describes: magnitude profile with its spread, mean, frequency (SI converted) or modes, field type, polarisation, centre and propagation direction. "
  "A plane wave or dipole on a total-field surface without an explicit delay is delayed so that its field on that surface is negligible at time zero, identically on every process.",
  ["inputs", "configurations"], "All source kinds x magnitude kinds x field types x axis and oblique directions x one to three coordinates in vector entries, singly and in pairs.",
  "Tests parse one source of a few kinds.",
  ["src/driver/driver.cpp", "src/components/Sources.cpp", "src/math/Function.h"],
  [("source parsing", "driver::buildSources"), ("vector assembly", "assemble3DVector"), ("automatic delay", "buildSources mean auto-computation")],
  ["evaluation of Sources returned by driver::buildSources"])

p("C11", "Mesh clean-up keeps every volume and boundary entity and is idempotent",
  "Cleaning a mesh file drops only the entities of too low dimension to matter (points in 2-D, points and lines in 3-D), uses each entity's geometric tag as its attribute, renumbers the remaining entities consecutively and updates the count; nodes and all other sections are untouched. "
  "Cleaning an already clean file changes nothing, and files that are not in that format are left alone. "
  "When several processes load the case, none rewrites the file while another is still reading it.",
  ["inputs", "histories", "schedules"], "All mesh files with up to a bounded number of entities of each type, in every order, cleaned once and twice; loads by up to three processes with any one of them delayed.",
  "Tests load fixed meshes only.",
  ["src/driver/driver.cpp"],
  [("file rewrite", "driver fixGmshMesh")],
  ["contents of the mesh file after a load"])

p("C12", "Input paths resolve to the case's own files and mismatched names are refused",
  "The mesh of a case is looked up next to the case file under the file name it declares, for every directory depth and name, and the mesh and case must share the case's base name and the supported mesh extension or the case is refused.",
  ["inputs"], "All combinations of directory depth, case names (including names containing dots, the extension text or other cases' names) and mesh names and extensions.",
  "Tests use conventional names only.",
  ["src/driver/driver.cpp", "src/launcher/launcher.cpp"],
  [("path assembly", "assembleMeshString/assembleLauncherMeshString"), ("naming check", "validateCaseNamingStyle")],
  ["strings returned / files opened / exceptions"])

p("C13", "Thin-layer definitions are resolved finely enough and respect overrides",
  "Each declared layer of a thin-panel boundary keeps its width and material (conductivity unit-converted), and unless overridden gets order 2 if its loss tangent at the highest source frequency exceeds 100, order 4 if nearly lossless and 3 otherwise, with the fewest cells (at least 4, at most 1000) giving 20 nodes per wavelength and 2 cells per skin depth. "
  "An explicit number of cells or order in the case file is used verbatim.",
  ["inputs", "configurations"], "A grid of widths, conductivities, permittivities, frequencies and override choices, for one to three layers.",
  "Tests use a few published materials.",
  ["src/driver/driver.cpp", "src/components/Model.cpp"],
  [("layer sizing", "driver parseSGBCLayer"), ("source bandwidth", "calculateMaximumSourceFrequency"), ("totals over layers", "SGBCProperties")],
  ["SGBC properties of the model built by driver::buildModel"])

p("C14", "Parallel partitions keep interface pairs together and place every element",
  "Whatever initial partition is proposed, the constrained partition assigns every element to a valid rank and puts the two elements on either side of every total-field or thin-panel face, and transitively all elements linked by such faces, on the same rank. "
  "With no such faces the proposed partition is unchanged.",
  ["inputs", "configurations"], "All initial partitions of small meshes over up to three ranks and all choices of tagged interior faces.",
  "Tests run on one rank; the constraint quantifies over partitions and meshes.",
  ["src/driver/driver.cpp"],
  [("union-find over interface pairs", "applyPairwiseConstraintsPartitioning"), ("load balancing", "applyPairwiseConstraintsPartitioning")],
  ["partitioning used to build the parallel mesh"])

p("C15", "A run advances monotonically and ends exactly at the final time",
  "For every final time and time step a run takes strictly positive steps, never passes the final time, ends at it (within rounding) and takes as many steps as needed and no more; stepping one by one reaches the same states as running through. "
  "A zero final time performs no step.",
  ["histories", "inputs"], "All pairs of final time and time step on a grid including exact multiples, near-multiples (rounding on both sides) and steps larger than the run, for each integrator.",
  "Tests use a few fixed durations where an extra or missing step is within tolerance.",
  ["src/solver/Solver.cpp"],
  [("loop guard and clipped last step", "Solver::run/step")],
  ["Solver::getTime and recorded step sizes"], state=[("time", "simulated time", "Solver")])

p("C16", "Probes record at the start, at every interval and at the end",
  "In every run, each probe writes one record at time zero, one after every k-th step where k is its interval, and one at the final time, in time order and without duplicates of the same step. "
  "If only a number of saves is given, the interval is derived from the time step actually used, so at least that many records are written whenever the run has that many steps.",
  ["histories", "configurations"], "All intervals, save counts and run lengths up to a bound, for each probe kind, alone and together.",
  "Tests check that files exist; record counts over all schedules are not examined.",
  ["src/solver/ProbesManager.cpp", "src/solver/Solver.cpp", "src/components/RCSSurfaceExporter.cpp"],
  [("cycle and final-time test", "ProbesManager::updateProbe overloads"), ("interval recomputation", "ProbesManager::recalculateExportSteps")],
  ["files written / point-probe movies"], state=[("cycle", "steps since start", "ProbesManager")])

p("C17", "Point and field probe files state the field at the probe with SI time",
  "Each row of a point or field probe file holds the SI time and the field value(s) that the discrete solution has at the declared position at that step, under a header stating the probe's identity and position, one file per probe. "
  "A probe outside the mesh writes nothing and does not disturb the others.",
  ["inputs", "configurations"], "All positions on a grid (element interiors, vertices, faces, outside), both fields, three components, 1-D and 2-D meshes, several probes at once.",
  "Tests read one probe at a time at favourable positions.",
  ["src/solver/ProbesManager.cpp"],
  [("point location", "ProbesManager::buildPointProbeCollection"), ("row output", "updateProbe(PointProbe/FieldProbe)")],
  ["probe files and in-memory movies"])

p("C18", "State recordings stay within their window and count",
  "A state-recording probe stores snapshots only at times inside its window, at most as many as requested, spaced no more closely than the requested spacing, numbered consecutively from zero, each holding the time, the size and the complete state at full precision. "
  "A run that covers the window with steps no longer than the spacing stores exactly the requested number.",
  ["histories", "configurations"], "All windows, save counts, time steps and final times on a grid.",
  "One fixed case in the suite.",
  ["src/solver/ProbesManager.cpp"],
  [("window and next-save bookkeeping", "ProbesManager::updateProbe(MORStateProbe)")],
  ["files x_<n>"], state=[("next save", "number of states written", "ProbesManager")])

p("C19", "Surface recordings hold one header and one complete record per save",
  "The surface recording of a run consists of one header whose counts match the data that follow, the geometry with outward unit normals and positive weights that sum to the surface measure, and then one record per save with the time and the six surface fields of that moment, and nothing else. "
  "At every moment a reader finds all records written so far complete.",
  ["histories", "crash_points"], "All run lengths and intervals up to a bound on closed surfaces in 2-D and 3-D, inspecting the file after every step.",
  "Tests consume the file only through one end-to-end comparison.",
  ["src/components/RCSSurfaceExporter.cpp", "src/components/SubMesher.cpp"],
  [("header and geometry", "RCSSurfaceExporter::writeGeometry"), ("snapshot append and flush", "RCSSurfaceExporter::writeSnapshot")],
  ["surface_data.bin"])

p("C20", "The automatic time step scales with the mesh and the requested CFL",
  "When no time step is given, the chosen one is positive, proportional to the CFL factor and to a uniform scaling of the mesh, does not increase with polynomial order, under refinement or when any one cell narrows, does not depend on how cells are numbered, and an RK4 run with CFL at most one half (one quarter below second order) does not grow in energy; an explicit time step is used verbatim. "
  "Negative orders, negative final times and non-positive CFL factors are refused.",
  ["inputs", "configurations"], "All orders up to a bound, CFL values, scalings and small meshes of each element type, and all invalid option combinations.",
  "Tests run specific cases with hand-tuned steps.",
  ["src/solver/Solver.cpp"],
  [("time-step estimate", "Solver::estimateTimeStep"), ("option validation", "Solver::checkOptionsAreValid")],
  ["Solver::getTimeStep / exceptions / energy"])

p("C21", "Starting a run replaces only that run's outputs",
  "Starting a simulation clears what an earlier run of the same case and mode left where the new run records probes, snapshots, near fields, states or surfaces, so that afterwards those places hold exactly what the run alone would have written. "
  "No file or directory outside those places and the case's own statistics is created, changed or removed, other cases' and other modes' outputs included. "
  "Running the same case twice yields the same output files as running it once.",
  ["histories", "configurations"], "All sequences of up to three runs of two cases with every kind of recording and two lengths, with one and two processes, from case files and through the programming interface, over a populated directory; the whole tree is compared after every run.",
  "Tests never inspect what is left behind from earlier runs.",
  ["src/solver/ProbesManager.cpp", "src/driver/driver.cpp", "src/components/RCSSurfaceExporter.cpp", "src/solver/Solver.cpp"],
  [("directory preparation", "prepareExportDirectories / init*ProbeExport / updateProbe")],
  ["file tree before and after"])

p("C22", "Radar cross sections follow the surface integral, however the data are split",
  "For every surface recording, frequency and observation angle, the far field and radar cross section reported equal the frequency-domain surface-current integral of the recorded fields normalised by the incident power spectrum, in two and three dimensions. "
  "Distributing the same surface over several rank recordings, or listing them in another order, does not change the result.",
  ["inputs", "configurations"], "All small recordings from a grid of geometries, field patterns, times, frequencies and angles, and all ways of splitting their points over up to three ranks.",
  "Tests compare one or two full cases with published curves under loose tolerances.",
  ["src/components/RCSSurfacePostProcessor.cpp", "src/components/FarField.cpp"],
  [("DFT", "computeAndWriteResults"), ("N and L potentials", "computeAndWriteResults"), ("incident spectrum", "computeIncidentPowerSpectrum")],
  ["getRCS/getFarField and output files"])

p("C23", "A recording cut short by a crash contributes only its complete records",
  "If a surface recording ends in the middle of a record, post-processing gives exactly the result of the recording up to its last complete record, and if not even the header, geometry and one record are complete it reports an error. "
  "It never uses partially written or invented field values.",
  ["crash_points"], "Truncation of a recording at every byte offset.",
  "No test interrupts a writer; a crash point is not a test input.",
  ["src/components/RCSSurfacePostProcessor.cpp", "src/components/RCSSurfaceExporter.cpp"],
  [("record reader", "RCSSurfacePostProcessor::readRankData"), ("flush per record", "RCSSurfaceExporter::writeSnapshot")],
  ["post-processing result for each truncated file"])

p("C24", "Time cut-off and observation angles are honoured or refused",
  "With a maximum time, post-processing equals processing a recording that contains only the records up to and including that time, and is an error if none remain. "
  "In two dimensions an observation angle out of the plane is refused, an in-plane one is accepted.",
  ["inputs"], "All cut-offs at, between and around record times and all angle pairs on a grid, including rounding-sized deviations from the plane.",
  "Tests never pass a cut-off.",
  ["src/components/RCSSurfacePostProcessor.cpp"],
  [("snapshot filter", "RCSSurfacePostProcessor constructor"), ("angle check", "computeAndWriteResults")],
  ["results / exceptions"])

p("C25", "RCS requests produce one result per probe, frequency and angle",
  "A post-processing request evaluates every surface probe of the case at every combination of the requested evenly spaced frequencies and angles, both ends included, and writes each value once in the file of its angle; a single step means the start value and an absent time limit means no limit. "
  "Requests for cases without such probes, or missing mandatory entries, are refused.",
  ["inputs", "configurations"], "All step counts up to a bound in each of the three ranges, one or two probes, optional entries present or absent.",
  "No test exercises the request file.",
  ["src/driver/rcs_driver.cpp", "src/components/RCSSurfacePostProcessor.cpp"],
  [("grid expansion", "runRCSPostProcessing linspace"), ("output files", "computeAndWriteResults")],
  ["output tree"])

p("C26", "Near-to-far-field helpers agree with their definitions",
  "The discrete Fourier transform, the observation phase factor, the incident pulse evaluation, the low-magnitude frequency trimming, snapshot ordering and the plane-wave description used by far-field processing each equal their mathematical definition for every input. "
  "Merging per-rank result files adds the ranks' values row by row and refuses mismatching files.",
  ["inputs"], "Grids of fields, times, frequencies, angles and positions, snapshot directory name sets, source entries and per-rank file sets.",
  "Tests check a single angle or frequency.",
  ["src/components/FarField.cpp", "src/components/RCSManager.cpp"],
  [("DFT", "calculateDFT/calculateFreqFields"), ("phase factor", "func_exp_*"), ("file merge", "writeParallelDataIntoSingleFiles")],
  ["public FarField/RCSManager functions"])

p("C27", "Total/scattered field sides follow the geometry of the surface",
  "For a closed total-field surface, every element touching the surface through a face is placed in the total-field set if it lies inside and in the scattered-field set if outside, no element is in both, and no other element is included. "
  "In 3-D (convex surfaces) this holds however elements, vertices and faces are numbered or oriented; in 1-D and 2-D for every mesh following the documented numbering (left to right; scattered-field elements before the total-field ones they touch), however vertices and faces are listed.",
  ["inputs", "configurations"], "All element orders, local vertex rotations and face orders/orientations (to a bound) of small 1-D, 2-D (triangles, quadrilaterals) and 3-D meshes with an embedded closed surface.",
  "Tests use a few fixed meshes with one numbering.",
  ["src/components/SubMesher.cpp"],
  [("orientation test", "setIndividualTFSFAttributesForSubMeshing1D/2D/3D"), ("tagging", "setAttributeForTagging")],
  ["element sets of the TF, SF and global sub-meshes"])

p("C28", "Near-to-far-field surfaces are extracted completely, facing outward",
  "Extracting a closed recording surface yields exactly the elements on its inner side, with exactly the surface's faces marked for recording, and normals that point from the enclosed region outward, for every mesh whose enclosed elements are numbered before the outer ones they touch. "
  "A tag that marks no face, or an unsupported dimension, is refused.",
  ["inputs", "configurations"], "All admissible numberings, vertex rotations and face orders (to a bound) of small 2-D and 3-D meshes with an embedded closed surface.",
  "Tests check counts on one mesh.",
  ["src/components/SubMesher.cpp", "src/components/RCSSurfaceExporter.cpp"],
  [("surface tagging", "setSurfaceAttributesForSubMesh2D/3D"), ("boundary relabelling", "setBoundaryAttributesInChild")],
  ["NTFF sub-mesh elements, boundary attributes, exported normals"])

p("C29", "The evolution operator differentiates polynomial fields exactly",
  "On any mesh, applying the spatial operator to smooth fields that are polynomials of at most the chosen order and satisfy the boundary conditions gives the exact curls scaled by the local material (minus sigma/eps E), at every node. "
  "This holds for centred and upwind fluxes, every element type, order and material layout.",
  ["inputs", "configurations"], "All monomial field components up to the order on small meshes of segments, triangles, quadrilaterals, tetrahedra and hexahedra, with centred and upwind fluxes and uniform and two-material layouts.",
  "Tests compare time-domain results on specific problems with loose tolerances.",
  ["src/components/DGOperatorFactory.h", "src/mfemExtension/BilinearIntegrators.cpp", "src/mfemExtension/IntegratorFunctions.cpp", "src/evolution/GlobalEvolution.cpp"],
  [("stiffness and flux assembly", "DGOperatorFactory"), ("face integrators", "BilinearIntegrators")],
  ["time derivative returned by the evolution operators"])

p("C30", "Discrete energy is conserved by centred fluxes and never grows otherwise",
  "With centred fluxes and lossless materials enclosed by perfect conductors (electric or magnetic), the semi-discrete electromagnetic energy is exactly constant; with upwind fluxes, absorbing boundaries or conductive regions it never increases, and strictly decreases for fields with jumps, outgoing waves or E in conductors. "
  "No combination of materials, boundaries, interior sheets, orders and straight or curved cells violates this.",
  ["inputs", "configurations"], "All boundary assignments, interior-sheet choices, flux types, material layouts and orders on small meshes of each element type, over the complete state space (via the quadratic form).",
  "Tests run specific cavities for finite times.",
  ["src/components/DGOperatorFactory.h", "src/mfemExtension/BilinearIntegrators.cpp", "src/evolution/GlobalEvolution.cpp"],
  [("flux coefficients", "DGOperatorFactory boundary coefficients"), ("conductive term", "collectGlobalConductiveOperator")],
  ["symmetric part of (mass x operator)"])

p("C31", "All evolution formulations compute the same time derivative",
  "The alternative formulations of the spatial operator (assembled global matrix, separate operators, and nodal element-wise evaluation) and the alternative assembly routes of the global matrix give the same time derivative for every state, whenever they support the configuration. ",
  ["inputs", "configurations"], "All unit states of small meshes, for every flux type, boundary assignment, interior sheet and order within the bound.",
  "Tests use one formulation per case.",
  ["src/evolution/GlobalEvolution.cpp", "src/evolution/MaxwellEvolution.cpp", "src/evolution/HesthavenEvolution.cpp", "src/components/DGOperatorFactory.h"],
  [("direct CSR merge", "mergeBlocksToCSR"), ("element-wise evaluation", "HesthavenEvolution::Mult"), ("separate forms", "MaxwellEvolution::Mult")],
  ["Mult of the three operators"])

p("C32", "Boundary conditions are dual, local and isolating",
  "Exchanging electric and magnetic conductors together with the two fields (with the sign of duality) leaves the evolution unchanged; a condition influences only the elements touching its faces. "
  "A perfectly conducting interior sheet decouples its two sides completely and equally, while a tag without condition couples them as if absent.",
  ["inputs", "configurations"], "All boundary assignments and interior-sheet placements on small 1-D, 2-D and 3-D meshes for all unit states.",
  "Tests examine reflection for one or two conditions in 1-D and 2-D.",
  ["src/components/DGOperatorFactory.h", "src/components/Model.cpp", "src/mfemExtension/BilinearIntegrators.cpp"],
  [("boundary coefficients", "DGOperatorFactory bdrCoeff maps"), ("interior sheet forms", "buildIntBdr operators")],
  ["global operator entries"])

p("C33", "Results do not depend on mesh numbering or on the number of ranks",
  "Renumbering elements, vertices or rotating local vertex order leaves the evolution operator the same up to the corresponding renaming of unknowns. "
  "For every distribution of the elements over ranks, the ranks' operators together, with neighbour values exchanged, give the time derivative of the single-rank run.",
  ["configurations", "schedules"], "All element permutations, local rotations and all partitions over up to three ranks of small meshes, over all unit states.",
  "Tests run one numbering and one rank.",
  ["src/components/DGOperatorFactory.h", "src/evolution/GlobalEvolution.cpp", "src/mfemExtension/BilinearIntegrators.cpp"],
  [("neighbour columns", "DGOperatorFactory getAdditionalDofs / block placement"), ("neighbour exchange", "GlobalEvolution::Mult")],
  ["operators per rank"])

p("C34", "A total-field surface injects the incident wave only inside",
  "With a total-field surface, the state equal to the incident wave inside and zero outside evolves, at each instant, exactly as the incident wave inside and stays zero outside, up to the discretisation of the wave itself; with no incident wave the surface is invisible. "
  "Several incident waves add up.",
  ["inputs", "configurations"], "All incidence directions and polarisations on a grid, centred and upwind fluxes, 1-D, 2-D and 3-D meshes with an embedded surface, each evolution formulation, several times, one or two waves.",
  "Tests look at one direction and tolerate percent-level leakage.",
  ["src/evolution/GlobalEvolution.cpp", "src/evolution/MaxwellEvolution.cpp", "src/solver/SourcesManager.cpp", "src/components/SubMesher.cpp"],
  [("source injection", "applyTFSFSourceToVector"), ("side sign mask", "SourcesManager::initDirectPlanewaveEval")],
  ["time derivative at the surface elements"])

p("C35", "Each time integrator solves its own step equation",
  "For every linear problem, one step of the chosen integrator multiplies each mode by that integrator's stability function, and the implicit stage solve satisfies its defining linear equation to solver accuracy for every step size, including when the step size changes between calls. ",
  ["histories", "inputs"], "All sequences of up to three step sizes from a set, for all integrators, on small operators with and without sources.",
  "Tests run explicit RK4 almost exclusively.",
  ["src/evolution/GlobalEvolution.cpp", "src/solver/Solver.cpp"],
  [("implicit solve with cached factorisation", "GlobalEvolution::ImplicitSolve"), ("integrator selection", "Solver constructor")],
  ["state after steps / residual of the stage equation"], state=[("cached factor", "factorisation valid for one step size", "GlobalEvolution")])

p("C36", "Panel-face frames are proper rotations aligned with the face normal",
  "For every face normal, the local frame used at thin-panel faces is a right-handed orthonormal frame whose first axis is the unit normal, so that transforming fields in and out is the identity and preserves tangential and normal parts. "
  "The frame depends only on the direction of the normal, not on its length.",
  ["inputs"], "All normals from an integer direction grid in 2-D and 3-D including axis-aligned and nearly axis-aligned ones, and scalings.",
  "Only axis-aligned panels are tested.",
  ["src/solver/SolverExtension.h", "src/solver/SolverExtension.cpp"],
  [("frame construction", "buildFaceRotationMatrix")],
  ["rotation matrices, injected and returned fields"])

p("C37", "Panel sub-models reproduce the declared layer stack",
  "The internal one-dimensional model of a thin panel contains every declared layer in order with its width, cell count and material, padded by ghost cells on each side; face values read from and written to it are those at the panel's two surfaces. "
  "Its recommended internal step never exceeds the smallest cell's travel-time limit (relaxed, at most fiftyfold, only for layers more than three skin depths thick) and every advance covers exactly the requested interval.",
  ["inputs", "configurations"], "All layer stacks of up to three layers from a grid of widths, cells, orders and materials, and a grid of advance intervals.",
  "Tests run a few stacks end to end.",
  ["src/solver/SolverExtension.cpp"],
  [("sub-mesh construction", "buildSGBCMesh"), ("interface indices", "getLeft/RightInterfaceIndex"), ("recommended step", "SGBCWrapper constructor")],
  ["SGBCWrapper public API"])

p("C38", "Evaluating the panel coupling leaves no trace and is schedule independent",
  "Evaluating the time derivative any number of times within a step does not change later results; only completing the step advances the panels, once, by the step. "
  "Panels are advanced independently, so the result does not depend on the number of worker threads or the order in which faces are processed.",
  ["histories", "schedules"], "All sequences of evaluations, checkpoints and completions up to a bound, for one to three panel faces and one to three worker threads in every assignment of faces to workers.",
  "Tests run one schedule on one thread count.",
  ["src/evolution/GlobalEvolution.cpp", "src/solver/SolverExtension.cpp"],
  [("checkpoint and restore", "commitSGBCCheckpoint/finalizeSGBCStep"), ("per-thread clones", "SGBCWrapper::clone")],
  ["derivatives and panel states"], state=[("panel states", "per-face 1-D fields", "GlobalEvolution")])

p("C39", "Surface-impedance fits are stable and as accurate as reported",
  "A fitted surface impedance has only non-growing poles, uses at most the requested number of poles and, if it reports success at the tolerance, reproduces the target impedance within it at every fitted frequency; fitting a rational function of that order recovers it. "
  "The result depends only on the inputs.",
  ["inputs"], "A grid of widths, conductivities, permittivities, frequency bands, pole counts and tolerances, and all small sets of exact rational targets.",
  "Tests fit two materials.",
  ["src/components/SIBCPoleResidueFitting.cpp"],
  [("vector fitting", "calcPolesAndResidues"), ("order search and stability filter", "findOptimalPoles")],
  ["returned poles and residues"])

p("C40", "Spherical and Cartesian vectors convert losslessly",
  "Converting a position or vector between Cartesian and spherical form and back returns the original for every non-zero vector, and components in the local spherical basis have the same length as the Cartesian vector. "
  "Two listings of a triangle's or segment's vertices are reported as equally oriented exactly when they run the same way round.",
  ["inputs"], "All vectors of an integer grid, in every octant and on the axes and planes.",
  "Tests convert a few vectors.",
  ["src/components/Spherical.cpp", "src/math/Calculus.h", "src/math/Geometry.cpp"],
  [("conversions", "Spherical.cpp")],
  ["conversion functions"])

p("C41", "A cell next to thin panels sees exactly the surfaces facing it",
  "In a cell bordering thin panels the time derivative is that of the same mesh without panels in which, across every panel face, the neighbour's field is replaced by the field on the panel surface facing the cell, or by its mirror image where that surface is covered by a conductor; every other cell is unaffected. "
  "This holds for any arrangement of panels, including cells between several panels and panels meeting in an edge or corner, and for any numbering of the cells.",
  ["configurations", "inputs"], "All subsets of the interior faces of small meshes in one to three dimensions as panels, of one or several kinds, for all numberings of the cells, with several orders, fluxes, materials and outer boundaries.",
  "Tests place a single planar panel in a mesh numbered along it.",
  ["src/evolution/GlobalEvolution.cpp", "src/components/DGOperatorFactory.h", "src/components/SubMesher.cpp"],
  [("node pairs and frames", "GlobalEvolution constructor"), ("flux injection", "GlobalEvolution::Mult"), ("face operator", "buildSourceFaceOperator")],
  ["time derivative of the evolution operator"])

p("C42", "A case gives the same fields however many processes run it",
  "Running a case file on several processes ends at the same time, with the same step, and leaves at every node the fields the single-process run leaves there, whichever way the cells are initially distributed, as long as every process ends up with some cells. "
  "This includes cases with incident waves whose surface carries several tags, initial fields, materials, thin panels and automatic time steps or delays.",
  ["configurations", "schedules"], "All initial distributions over two or three processes of small meshes in one to three dimensions, for every combination of a set of sources, panels, formulations and integrators.",
  "Tests run on one process, and a mesh partitioner proposes one distribution only.",
  ["src/driver/driver.cpp", "src/components/Model.cpp", "src/components/SubMesher.cpp", "src/evolution/GlobalEvolution.cpp", "src/evolution/MaxwellEvolution.cpp", "src/solver/Solver.cpp"],
  [("interface constraints on the partition", "applyPairwiseConstraintsPartitioning"), ("per-process markers", "postProcessInformation"), ("neighbour exchange", "evolution operators")],
  ["fields at the end of a run built from a case file"])

p("C43", "Snapshots and visualisation output hold the fields of their moment",
  "Every domain snapshot, near-field recording and visualisation output holds all six field components exactly as the solver has them at the step it is taken (to the digits written), on cells and nodes identical to the solver's, and is labelled with that step's number and time. "
  "They are taken at the start, every so many steps as asked, and at the end, and no others appear; one probe's presence does not alter another's output. "
  "On several processes each writes its own cells, and together they hold the whole domain once.",
  ["inputs", "histories", "configurations"], "All recording intervals and run lengths up to a bound, all combinations of the three outputs, element types, orders and node families, and all distributions of small meshes over two and three processes; read back after every step.",
  "Tests check that files exist, or look at one by eye.",
  ["src/solver/ProbesManager.cpp", "src/components/Probes.h", "src/components/SubMesher.cpp"],
  [("transfer to the recorded region", "NearFieldReqs::updateFields"), ("snapshot files", "DomainSnapshotDataCollection::Save"), ("recording schedule", "ProbesManager::updateProbe")],
  ["files under Exports/ after every step"])

p("C44", "An exported operator is the one the run uses",
  "When operator export is asked for, the file written for the case holds a matrix whose product with any field state is, to the digits written, the time derivative the solver computes for it when no sources act; a recorded field state multiplied by it gives the derivative at that moment. "
  "Asking for it changes nothing else in the run, and nothing is written when it is not asked for.",
  ["inputs", "configurations"], "All unit states on small meshes of every element type, for several orders, fluxes, materials, boundary conditions and interior sheets, and all recorded states of short runs.",
  "Tests check that a file exists.",
  ["src/components/DGOperatorFactory.h", "src/evolution/GlobalEvolution.cpp", "src/solver/ProbesManager.cpp"],
  [("operator export", "DGOperatorFactory.h"), ("state recording", "MORStateProbe")],
  ["files under Exports/Operators and the recorded states"])

p("C45", "The solver's command line runs the named case, or nothing",
  "Whatever else appears on the command line and in whatever order, the case run is the one named last as input, with the results it has when run on its own, and success is reported only then. "
  "Asking for help shows it and runs nothing; a missing, unreadable, malformed or wrongly named input, or an unknown device, ends in failure with nothing run.",
  ["inputs"], "All sequences of up to four (thorough: five) arguments over the options, two valid cases, faulty inputs, devices and unknown words.",
  "No test calls the launcher.",
  ["src/launcher/launcher.cpp", "src/driver/driver.cpp"],
  [("argument scan", "launcher main")],
  ["exit status, text shown and files written by the launcher"])

p("C46", "The post-processor's command line serves the named request, or nothing",
  "Whatever else appears on the command line and in whatever order, the request carried out is the one named last as input, with the results it has when carried out on its own, and success is reported only then. "
  "Asking for help shows it and carries out nothing; without a usable request it ends in failure with nothing written. Recordings are never altered.",
  ["inputs"], "All sequences of up to four (thorough: five) arguments over the options, two valid requests, faulty ones and unknown words.",
  "No test calls the launcher.",
  ["src/launcher/rcs_launcher.cpp", "src/driver/rcs_driver.cpp"],
  [("argument scan", "post-processor main")],
  ["exit status, text shown and files written by the launcher"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P), "properties")
