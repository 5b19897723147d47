#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the statements can be reviewed as prose)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=(), state=(), hook=None):
    assert len(title) <= 80, id
    P.append(dict(id=id, title=title, statement=" ".join(statement.split()),
        quantifier=dict(over=over, text=" ".join(text.split())), why_tests_cant=" ".join(why.split()),
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a,b,c in state],
                     mechanism=[dict(name=a, where=b) for a,b in mech], observe_at=list(observe), hook_needed=hook)))

# ---------------------------------------------------------------- mesh
prop("M01", "Derived mesh connectivity is exactly the mesh's edge structure",
 """For every valid 2D mesh of triangles and quadrilaterals, the derived connectivity lists each mesh edge exactly once:
 as a physical boundary face exactly if one cell owns it (these come first, with a right-hand index outside the range of cells
 that is unique to the face), and otherwise as an interior face between exactly the two cells that share it, lower cell index on the left,
 endpoints in the anticlockwise order of the left cell. The cell-to-face, cell-to-neighbour and point-to-cell relations and the edge queries
 (face of a cell holding two given points, position of a node in a cell) agree with that edge structure, and all counts agree with it.
 Each boundary face keeps the markers given for its edge in the mesh input, whatever the order or direction in which boundary edges are listed;
 re-orienting the boundary edges only reverses edges so that the domain lies on their left.""",
 ["inputs"], "All conforming meshes mixing triangles and quads (multiply connected or not), all numberings of cells and points, all rotations of cell node lists, all orders and directions of the boundary edge list.",
 """The unit tests compare counts and a few entries on one bundled hybrid mesh; no test enumerates cell shapes, numberings or boundary listings.""",
 ["src/mesh/mesh.cpp", "src/mesh/mesh.hpp"],
 [("compute_topological / compute_elementsSurroundingPoints / compute_faceConnectivity", "src/mesh/mesh.cpp"), ("compute_boundary face matching, correctBoundaryFaceOrientation", "src/mesh/mesh.cpp")],
 ["UMesh public getters after compute_topological()"])
prop("M02", "Cell areas, centres, face normals and lengths are the polygon geometry",
 """For every valid mesh the reported cell areas equal the polygon areas, cell centres are the vertex averages, face lengths are the edge
 lengths, and each face carries the unit normal of its edge pointing out of its left-hand cell. Hence the outward face vectors of every cell
 sum to zero and the cell areas sum to the area of the domain, independently of the numbering of cells, points and boundary edges.""",
 ["inputs"], "All conforming meshes with triangles and quads with arbitrary vertex positions (all cells anticlockwise and convex), all numberings.",
 """Tests only look at metrics indirectly, through convergence rates on a few uniform meshes; an error that affects one cell type, one face class or one numbering averages out.""",
 ["src/mesh/mesh.cpp"], [("compute_areas, compute_cell_centres, compute_face_data", "src/mesh/mesh.cpp")],
 ["UMesh::garea, UMesh::gfacemetric, UMesh::compute_cell_centres"])
prop("M03", "Periodic boundary faces are paired by a symmetric, position-matching map",
 """When two parts of the boundary carry the periodic marker and match under translation along one coordinate axis, computing the periodic map pairs every such
 boundary face with exactly the face at the opposite position on the other part: the pairing is an involution without fixed points, paired faces agree in the other coordinate,
 and no other boundary face is paired.""",
 ["inputs"], "All structured-outline meshes with matching periodic sides, either axis, all numberings and boundary listings, with other boundary markers present.",
 "One test checks one periodic mesh in one numbering and one axis.",
 ["src/mesh/mesh.cpp"], [("compute_periodic_map", "src/mesh/mesh.cpp")], ["UMesh::compute_periodic_map and the periodic map getter"])
prop("M04", "Mesh files are read faithfully and survive a write/read round trip",
 """Reading a mesh file yields exactly the points, cells (in file order, with their vertices in order), boundary edges and integer markers that the file describes,
 for Gmsh 2 ASCII files with any number of tags and physical regions and for SU2 files with the same content. Writing the mesh as Gmsh and reading that file again gives the
 same points, cells, region markers, boundary edges and boundary markers.""",
 ["inputs"], "All small hybrid meshes, orders of elements in the file, numbers of tags per element, marker values, both formats.",
 "Tests read bundled files only and check what the solver makes of them; nothing compares the stored mesh with the file or exercises mixed orders and the writer.",
 ["src/mesh/meshreaders.cpp", "src/mesh/mesh.cpp"], [("readGmsh2 / readSU2 / readMesh", "src/mesh/meshreaders.cpp"), ("writeGmsh2", "src/mesh/mesh.cpp")],
 ["MeshData fields, UMesh getters, written .msh file"])
prop("M05", "Comparing two meshes reports exactly what differs",
 """The comparison of two meshes answers eight questions: whether they have the same numbers of cells, points and boundary faces, and whether cell types (vertices per cell and faces
 per cell), cell connectivity, boundary faces with their markers, and point coordinates agree. Each count is compared exactly. A difference in the part that both meshes have is always
 reported under its own question, whatever else differs; where the numbers of the compared things are equal, agreement is reported exactly when they agree. The comparison works for any pair of meshes, in either
 order, and a mesh compared with itself (or with a second reading of its file) agrees in everything.""",
 ["inputs"], "All pairs of a mesh and one that differs in one or several ways: moved points, rotated or exchanged cells, markers, boundary edges, numbers of anything, other shapes.",
 "One test compares two meshes that should be equal; no test compares meshes that differ.",
 ["src/mesh/ameshutils.cpp"], [("compareMeshes", "src/mesh/ameshutils.cpp")], ["the eight answers of compareMeshes in both orders"])
# ---------------------------------------------------------------- reordering
prop("R01", "Renumbering cells is a pure permutation of the mesh",
 """Renumbering the cells of a mesh by any permutation relabels cells and nothing else: every cell keeps its vertices and region marker, boundary edges and markers are untouched,
 and all derived connectivity and geometry is what the permuted mesh would give. Each ordering the user can ask for (RCM and the other library orderings, line orderings) applies a genuine permutation
 and so does not change the physical mesh.""",
 ["inputs", "configurations"], "All permutations of small meshes, and the permutations produced by every supported ordering name.",
 "Tests check only that line ordering produces listed positions on one mesh, or that a final functional is unchanged.",
 ["src/mesh/mesh.cpp", "src/mesh/meshordering.cpp", "src/mesh/ameshutils.cpp"], [("reorder_cells", "src/mesh/mesh.cpp"), ("reorderMesh / getHybridLineOrdering", "src/mesh/ameshutils.cpp")],
 ["UMesh getters before/after reordering; writeGmsh2"])
prop("R02", "Anisotropic lines are disjoint chains of neighbours and stay contiguous",
 """The lines built from an anisotropic mesh start at boundary cells, are chains in which consecutive cells are face neighbours, never share a cell, and only contain cells whose local anisotropy reaches the threshold; the cell-to-line map
 agrees with the lists. The hybrid line ordering is a permutation that keeps each line's cells consecutive, in line order, and places groups of cells in the requested order of the group graph.""",
 ["inputs", "configurations"], "Anisotropic and mixed meshes, all thresholds, all numberings, natural and library orderings of the groups.",
 "Two tests examine one small mesh with one threshold.",
 ["src/mesh/meshordering.cpp", "src/mesh/details_lineordering.hpp"], [("findLines", "src/mesh/meshordering.cpp"), ("lineReorder / getHybridLineOrdering", "src/mesh/meshordering.cpp")],
 ["findLines, getHybridLineOrdering return values"])
prop("R03", "Level schedules respect dependencies and make levels independent",
 """A level schedule of a mesh is a list of strictly increasing cell boundaries from 0 to the number of cells such that no two face-neighbouring cells are in the same level, so all
 cells of a level can be processed concurrently in a forward sweep. The schedule is greedy: a level ends only at the first cell that neighbours a cell already in it.""",
 ["inputs"], "All small meshes, all numberings.", "Tests check one mesh's schedule and one randomly numbered one.",
 ["src/mesh/ameshutils.cpp"], [("levelSchedule", "src/mesh/ameshutils.cpp")], ["levelSchedule return value"])
# ---------------------------------------------------------------- partitioning and communication
prop("P01", "Partitioning splits the mesh into disjoint subdomains that cover it",
 """For any assignment of cells to processes, every cell, with its vertices, coordinates and region, is owned by exactly one subdomain and carries its global index there; each physical boundary edge appears, with its markers, exactly in the
 subdomain that owns its cell; and a subdomain contains no cell, point or boundary edge that does not belong to it.""",
 ["inputs", "configurations"], "All small meshes, all assignments of cells to 1-4 processes that leave no process empty (including disconnected subdomains), plus the trivial and Scotch partitioners.",
 "One test with three ranks, the trivial partitioner and one bundled mesh, comparing counts.",
 ["src/mesh/meshpartitioning.cpp", "src/mesh/ameshutils.cpp"], [("ReplicatedGlobalMeshPartitioner::restrictMeshToPartitions", "src/mesh/meshpartitioning.cpp"), ("TrivialReplicatedGlobalMeshPartitioner / ScotchRGMPartitioner", "src/mesh/meshpartitioning.cpp")],
 ["UMesh getters on each rank"])
prop("P02", "Inter-process faces mirror each other exactly",
 """Every interior edge of the global mesh whose two cells are assigned to different processes appears as exactly one inter-process face on each of the two and nowhere else; on each side it names the other process and the global index
 of the cell across it, and the two sides describe the same edge with opposite normals. No other edge is an inter-process face.""",
 ["inputs", "configurations"], "All small meshes and all assignments of cells to processes, including edges whose endpoints both lie on the boundary and processes that touch at several edges.",
 "The test checks counts on one mesh with one partition.",
 ["src/mesh/meshpartitioning.cpp", "src/mesh/mesh.cpp"], [("extractConnectivityFaces / getConnectivityFaceEIndices", "src/mesh/meshpartitioning.cpp"), ("connectivity face numbering", "src/mesh/mesh.cpp")],
 ["UMesh::gconnface, getConnectivityGlobalIndices, gfacemetric"])
prop("P03", "Halo exchange delivers each neighbour's current face data under every schedule",
 """After a trace-vector exchange completes, every inter-process face of every process holds on its far side exactly the values its neighbouring process last wrote on the near side of that same face before that exchange (the near side is not written while an exchange is under way), for every variable, every
 message delivery order, any number of repeated exchanges, and any arrangement of neighbours; local data is unchanged, and the exchange always terminates.""",
 ["schedules", "histories", "configurations"], "All small partitions, all message delays and completion orders, repeated exchanges with changing data.",
 "Two tests do a single exchange each, with natural timing on one mesh and partition.",
 ["src/linalg/tracevector.cpp"], [("L2TraceVector::updateSharedFacesBegin / updateSharedFacesEnd", "src/linalg/tracevector.cpp"), ("update_comm_pattern", "src/linalg/tracevector.cpp")],
 ["getLocalArrayLeft/Right of the trace vector; MPI calls"])
prop("P04", "Ghosted cell vectors map each ghost slot to the right neighbour cell",
 """A ghosted cell vector or matrix created for a distributed mesh owns the local cells in local order; after a ghost update each ghost slot holds the values that its owner holds for exactly the cell across the corresponding inter-process face,
 for any block size, when the cells of each process are numbered contiguously in process order. Global row numbers of cells computed on different processes are consistent and form one contiguous range without gaps or overlaps.""",
 ["inputs", "configurations"], "All small meshes, all assignments to 1-4 processes, block sizes.",
 "No test checks ghost values; parallel tests only observe convergence on one mesh.",
 ["src/linalg/alinalg.cpp", "src/linalg/petscutils.cpp", "src/mesh/ameshutils.cpp"], [("createGhostedSystemVector / createSystemVector", "src/linalg/alinalg.cpp"), ("setupSystemMatrix", "src/linalg/alinalg.cpp")],
 ["VecGhostUpdate results"])
# ---------------------------------------------------------------- spatial
prop("S01", "The residual is the sum of outward face fluxes: exact discrete conservation",
 """For any flow state, the residual of a cell is the sum over its faces of face length times the outward numerical flux, each interior face contributing the same flux with opposite signs to its two cells; so residuals summed over any set of
 cells equal the net flux through the boundary of that set, and over all cells the net flux through the physical boundary. Time steps returned with the residual are positive and equal to cell area over the sum of face length times face spectral radius.""",
 ["inputs", "configurations"], "All meshes, all flow states, fluxes and boundary types; first and second order.",
 "Convergence tests cannot see a flux that is applied inconsistently in a few faces or only for one boundary type.",
 ["src/spatial/flow_spatial.cpp", "src/spatial/aspatial.cpp"], [("FlowFV::compute_residual", "src/spatial/flow_spatial.cpp")], ["FlowFV_base::assemble_residual"])
prop("S02", "Distributed residuals and gradients equal the serial ones",
 """Evaluating the spatial operator on a distributed mesh gives, in every cell, the same residual (to round-off) as on the undistributed mesh with the same state, for any assignment of cells to processes, first and second
 order, inviscid and viscous, and the diffusion operator likewise.""",
 ["inputs", "configurations", "schedules"], "All small meshes, all assignments of cells to 2-4 processes, flow states, schemes.",
 "Parallel tests only check convergence on one partition of one mesh.",
 ["src/spatial/flow_spatial.cpp", "src/spatial/aspatial.cpp", "src/spatial/agradientschemes.cpp"], [("compute_residual with halo exchange", "src/spatial/flow_spatial.cpp")], ["assemble_residual on every rank"])
prop("S03", "Uniform free stream is an exact steady state away from walls",
 """If the flow is uniform and equal to the free stream and every boundary is a far-field boundary (or a slip wall parallel to the stream), the residual vanishes to round-off in every cell, for every mesh, flux scheme, gradient scheme and
 reconstruction, with or without viscous terms.""",
 ["inputs", "configurations"], "All meshes and numberings, Mach numbers below and above one, angles of attack, all fluxes, gradients and reconstructions.",
 "No test evaluates it; the wall tests cover one face each.",
 ["src/spatial/flow_spatial.cpp", "src/spatial/anumericalflux.cpp", "src/spatial/abc.cpp"], [("compute_residual, boundary conditions", "src/spatial/flow_spatial.cpp")], ["assemble_residual"])
prop("S04", "Numerical fluxes are consistent, conservative and upwind",
 """For every provided flux scheme: with equal states on both sides it returns the exact Euler flux along the normal; swapping the two states and reversing the normal negates the flux; it is unchanged in form under rotation of the coordinate frame; for the upwind schemes (all but
 Lax-Friedrichs) it equals the upstream state's exact flux when both states are supersonic in the same direction (for AUSM+, relative to its interface speed of sound); and it is the published formula of the scheme it is named after.""",
 ["inputs", "configurations"], "All admissible pairs of states (subsonic, supersonic, both directions, contact and shear jumps) and all unit normals, for every scheme name.",
 "Wall tests evaluate each flux at one mirror state and one normal.",
 ["src/spatial/anumericalflux.cpp", "src/physics/aphysics_defs.hpp"], [("InviscidFlux::get_flux of each scheme", "src/spatial/anumericalflux.cpp")], ["InviscidFlux::get_flux via the factory"])
prop("S05", "Gradients are exact where they must be",
 """The least-squares gradients are exact for linear fields and all gradient schemes return zero for constant fields, in every cell, on every mesh and for every variable; the Green-Gauss gradient equals the face-value integral over the cell boundary.""",
 ["inputs", "configurations"], "All meshes of at least the minimal stencil size, all linear fields, all gradient names, serial or distributed.",
 "Three tests check linear exactness on bundled meshes for one field.",
 ["src/spatial/agradientschemes.cpp"], [("WeightedLeastSquaresGradients / GreenGaussGradients", "src/spatial/agradientschemes.cpp")], ["GradientScheme::compute_gradients"])
prop("S06", "Reconstruction is exact for linear data and limiters never create new extrema",
 """Unlimited linear reconstruction reproduces linear fields at both sides of every face, and every reconstruction reproduces constants. The Barth-Jespersen and minmax-type limiters keep each reconstructed face value within the range of the cell and its face neighbours,
 and the MUSCL (van Albada) value is the cell value at extrema along the line joining the cells; each scheme computes its published formula.""",
 ["inputs", "configurations"], "All meshes, all cell data including extrema and discontinuities, all reconstruction names.",
 "Regression tests only compare drag and lift coefficients.",
 ["src/spatial/areconstruction.cpp", "src/spatial/limitedlinearreconstruction.cpp", "src/spatial/musclreconstruction.cpp"], [("SolutionReconstruction::compute_face_values", "src/spatial")], ["compute_face_values outputs"])
prop("S07", "Boundary conditions impose their defining ghost state",
 """Each boundary type turns the interior state into the ghost state that defines it: slip walls and symmetry planes mirror the normal velocity and keep density, pressure and tangential velocity; adiabatic walls impose the wall velocity, isothermal walls also the wall temperature; extrapolation copies the interior;
 far field imposes the free stream; inflow-outflow imposes the free stream for inflow, the interior for supersonic outflow and the free-stream pressure with the interior density and momentum for subsonic outflow;
 subsonic inflow imposes the given total pressure and temperature and the outgoing Riemann invariant of the interior, with velocity along the inward normal.""",
 ["inputs", "configurations"], "All interior states and unit normals, every boundary type and option value, every marker mapping.",
 "One test covers walls for one state; nothing exercises the other boundary types or marker dispatch.",
 ["src/spatial/abc.cpp"], [("FlowBC::computeGhostState", "src/spatial/abc.cpp"), ("create_const_flowBCs", "src/spatial/abc.cpp")], ["FlowBC via create_const_flowBCs"])
prop("S08", "The assembled Jacobian is the derivative of the first-order residual",
 """For fluxes with exact Jacobians the assembled matrix times any vector equals the directional derivative of the first-order residual, for every mesh and boundary combination; for every flux its blocks couple exactly face-neighbouring
 cells, each interior face contributing opposite blocks to its two rows, and adding the pseudo-time term changes only diagonal blocks.""",
 ["inputs", "configurations"], "Small meshes, random states, fluxes and boundary types, numbers of processes.",
 "No test evaluates the Jacobian; convergence tests tolerate wrong ones.",
 ["src/spatial/flow_spatial.cpp", "src/spatial/aspatial.cpp", "src/spatial/anumericalflux.cpp", "src/spatial/abc.cpp"], [("assemble_jacobian", "src/spatial/aspatial.cpp")], ["PETSc matrix entries"])
prop("S09", "Thermodynamic conversions agree with each other",
 """Conversions between conserved, primitive (pressure or temperature based) variables, entropy, sound speed, temperature, enthalpy and their derivatives are mutually consistent with one ideal-gas model and the free-stream nondimensionalisation; converting there and back is the identity.""",
 ["inputs"], "All admissible states, Mach numbers, angles of attack.",
 "Tests exercise conversions only inside the solver.",
 ["src/physics/aphysics.cpp", "src/physics/aphysics_defs.hpp"], [("IdealGasPhysics", "src/physics")], ["IdealGasPhysics methods"])
# ---------------------------------------------------------------- solvers
prop("O01", "Steady solvers stop exactly when they should and report the truth",
 """A pseudo-time solver starts from the given state, evaluates the residual once per step (from a zeroed vector, with the state of neighbouring processes up to date), and stops at the first step whose residual norm - of the last variable, area-weighted
 over all cells of all processes, including contributions computed by other processes - is at most the tolerance (below one) times the first, or after the maximum number of steps. Meeting the tolerance, at the last permitted step too, or with a residual of exactly zero, is a normal return with the convergence flag set;
 otherwise the tolerance error is raised; a non-finite norm raises a numerical error at that step. The recorded history (kept only if asked for) has one entry per completed step: number, relative and absolute norm. With no steps permitted nothing is changed.""",
 ["histories", "configurations", "fault_sequences"], "All sequences of residual norms (decreasing, stagnating, growing, zero, NaN or infinite at any step), step limits and tolerances, explicit and implicit solvers, scalar and system, any number of processes.",
 "Tests run a handful of converging cases and one that yields NaN.",
 ["src/ode/aodesolver.cpp"], [("SteadyForwardEulerSolver::solve, SteadyBackwardEulerSolver::solve", "src/ode/aodesolver.cpp")], ["solve() return/exception, getTimingData convergence history", "evaluations of a scripted spatial operator"])
prop("O02", "Pseudo-time steps advance by the specified system and CFL number",
 """Each implicit step adds to the state the solution of (cell area/(CFL x local time step) I + Jacobian) du = residual, with the assembled or the matrix-free operator, and each explicit step adds CFL x local time step/area x residual with the initial CFL number. The CFL number of the implicit solver is the initial one in the first step;
 it is then multiplied by the ratio of the last two residual norms (one standing in before the first) to the power 1/4 if that exceeds one and 3/10 otherwise, and is kept between the initial and final values given: it rises when the residual falls, falls when it rises, and is constant if the two values are equal. The history records it.""",
 ["histories", "configurations"], "All residual histories, CFL ranges, local time steps and Jacobians; any number of processes.",
 "Tests never look at the CFL number or at a single step.",
 ["src/ode/aodesolver.cpp"], [("expResidualRamp, addPseudoTimeTerm, solve", "src/ode/aodesolver.cpp")], ["solution increments and recorded history with a scripted spatial operator"])
prop("O03", "Nonlinear under-relaxation keeps factors within bounds and updates physical",
 """The relaxation factor of a cell's update is one minus the larger of the relative changes of density and pressure that the full update would cause, but not less than the configured minimum; so it lies between that minimum and one and is one for no change. A minimum outside (0,1] is refused.
 Implicit steps with relaxation scale each cell's own update by its own factor; the plain update strategy always has factor one.""",
 ["inputs", "configurations"], "All admissible states and updates.", "No test exercises it apart from full runs.",
 ["src/ode/nonlinearrelaxation.cpp", "src/physics/aphysics_defs.hpp"], [("FlowSimpleUpdate::getLocalRelaxationFactor", "src/ode/nonlinearrelaxation.cpp")], ["getLocalRelaxationFactor", "states of a relaxed implicit solve"])
prop("O04", "The TVD Runge-Kutta solver advances by the scheme of its order to the final time",
 """With order 1, 2 or 3, stage s of each time step is a u0 + b us + c (CFL dt/area) R(us), where u0 is the state at the start of the step, us the previous stage, R the residual of us including the contributions of other processes, (a,b,c) = (1,0,1) in the first stage, (1/2,1/2,1/2) in the second of order 2,
 and (3/4,1/4,1/4), (1/3,2/3,2/3) in the second and third of order 3; dt is the smallest local time step over all cells of all processes at the first stage. Steps are taken as long as the time elapsed (the sum of CFL dt) is short of the final time, and no longer; the state is then that of the last stage,
 with neighbouring processes' copies up to date, and one line is appended to the log. A non-finite time step raises a numerical error.""",
 ["histories", "configurations"], "All operators, local time steps, final times and orders; any number of processes.", "Tests run one inviscid vortex case serially and look at its error norm only.",
 ["src/ode/aodesolver.cpp"], [("TVDRKSolver::solve", "src/ode/aodesolver.cpp")], ["evaluations and final state with a scripted spatial operator"])
# ---------------------------------------------------------------- linear algebra
prop("L01", "Vector handlers restore access exactly once, whatever the usage order",
 """A handler gives access to the array of the vector attached to it (the ghosted kinds also to the copies of other processes' values) from the time a vector is attached until it is restored or destroyed, and to nothing otherwise; it refuses a second vector while one is attached.
 In every order of creating, attaching, reading, writing, restoring and destroying handlers, nested or not, the array and the ghosted local form are given back exactly once and the vector stays usable by everything else; values written persist and reach the vector's other users (whose cached results, such as norms, are recomputed), and reading changes neither values nor the vector's state.""",
 ["histories"], "All bounded sequences of create, read, write, restore and destroy on ghosted and plain vectors, nested or not.",
 "Handlers are exercised only in straight-line use.",
 ["src/linalg/petscutils.cpp", "src/linalg/petscutils.hpp"], [("MutableVecHandler, ConstVecHandler, MutableGhostedVecHandler, ConstGhostedVecHandler", "src/linalg/petscutils.cpp")], ["PETSc vector lock/array state"])
prop("L02", "The system matrix is preallocated for the mesh's sparsity",
 """The matrix set up for a mesh and a number of variables per cell is square, has one block row per cell, owned by the process that owns the cell and in the order of its cells, and room for the diagonal block and one block per face neighbour, local or on another process, in block and in scalar storage,
 so that assembling a Jacobian, the first or a later one, needs no further allocation; what it then stores couples exactly the cells that share a face.""",
 ["inputs", "configurations"], "All small meshes, partitions, block sizes and matrix types.", "No test looks at preallocation.",
 ["src/linalg/alinalg.cpp"], [("setJacobianPreallocation / setupSystemMatrix", "src/linalg/alinalg.cpp")], ["MatGetInfo, MatGetRow after assembly"])
prop("L03", "The matrix-free operator is the pseudo-time Jacobian action",
 """Applying the matrix-free Jacobian to a nonzero vector x gives the given pseudo-time diagonal times x minus the directional derivative along x of what compute_residual returns (the negative of the flux balance) at the given state, to the accuracy of a finite difference, for any state, residual operator (flow or diffusion, first or second order), number of applications and number of processes,
 with neighbour contributions from other processes included. It overwrites the result vector, leaves the state and the vector unchanged, and needs no time steps from the residual.""",
 ["inputs", "histories", "configurations"], "Random states and directions, repeated applications, several processes.", "Only one convergence test enables matrix-free mode.",
 ["src/linalg/alinalg.cpp"], [("MatrixFreeSpatialJacobian::apply", "src/linalg/alinalg.cpp")], ["MatMult of the shell matrix"])
prop("L04", "Two-dimensional arrays are independent values of the stated shape",
 """The two-dimensional arrays that hold all mesh and solution tables are values: an array constructed, resized, copied, assigned (also to itself) or read from a file has exactly the
 stated shape; copying, assigning and moving give the target the entries of the source, and a moved-from array is empty; setting entries, rows or all data changes exactly those entries. After any history of
 operations, no operation on one array changes another, all ways of reading an array (accessors, rows, views) agree, and an array that is printed to a file and read back is the same.""",
 ["inputs", "histories"], "All short and sampled long histories of operations on three arrays of up to 3 by 3 integer or real entries.",
 "No test exercises these arrays other than by using them.",
 ["src/utilities/aarray2d.hpp", "src/utilities/aarray2d.cpp"], [("Array2d", "src/utilities/aarray2d.hpp")], ["shape and entries of every array after every operation"])
# ---------------------------------------------------------------- configuration and orchestration
prop("C01", "Control files and command-line options map faithfully to the configuration",
 """Every documented key of a control file ends up as the corresponding solver setting: text and file names as written, names matched without regard to case, angles in radians, lists of markers and boundary values complete and in order, the boundary conditions in order, the settings of the start-up and of the main solve each from its own section, the Jacobian flux "consistent" as the flux itself; the physics and scheme settings extracted from it
 carry the same values, the start-up scheme being first order with the same flux. Options left out take their defaults (no start-up solve without its section, second order unless the gradient method is "none", variable viscosity, smallest relaxation factor 0.2). The command line overrides the mesh file, the options database the log file. A missing required key, a word that is no number or unknown, or too few values are reported as an error and never guessed;
 a valid file is never refused. Single typed options return exactly what is set, or their default or an error if they are not.""",
 ["inputs", "configurations"], "All documented keys, present, absent, unknown and ill-formed, one by one and combined; file, command line and options database.", "One test parses one file.",
 ["src/utilities/controlparser.cpp", "src/utilities/aoptionparser.cpp", "src/spatial/abctypemap.cpp"], [("parse_flow_controlfile, extract_spatial_physics_config, extract_spatial_numerics_config, firstorder_spatial_numerics_config", "src/utilities/controlparser.cpp"), ("parsePetscCmd_*, parseOptionalPetscCmd_*", "src/utilities/aoptionparser.cpp")], ["FlowParserOptions, FlowPhysicsConfig, FlowNumericsConfig"])
prop("C02", "A steady run starts up, solves, reports failures and writes files as specified",
 """A run starts from the free stream, carries out the first-order start-up solve with its own CFL numbers, tolerance and step limit if, and only if, it is configured, and then the main solve with the configured scheme from its result. Not reaching the tolerance in the start-up solve is tolerated; a numerical failure in it ends the run with that error and without files. A main solve that does not reach its tolerance, for lack of steps or for a numerical failure, makes the run fail with the tolerance error;
 a run with output reports that and still returns the functionals of the state it reached and writes, on one process, the requested surface, VTU and volume files of it. The history file holds one line per step of the main solve with its relative and absolute residual and CFL number, and is written, with the timing file, exactly if a run with output converged and history was asked for. If the final linear system is asked for, an implicit run writes matrix, right-hand side and solution of its last linear solve. All processes agree on the course.""",
 ["histories", "fault_sequences", "configurations"], "All combinations of start-up on or off, how either phase ends, explicit or implicit, one or two processes, and output settings.", "Tests only run converging cases, plus one NaN case.",
 ["src/utilities/casesolvers.cpp", "src/ode/aodesolver.cpp"], [("FlowCase::run, FlowCase::run_output, SteadyFlowCase::execute, execute_starter, execute_main", "src/utilities/casesolvers.cpp")], ["exceptions, files written, final state, functionals"])
prop("C03", "Factories return exactly the scheme named and reject unknown names",
 """Each documented name of an inviscid flux, Jacobian flux, gradient scheme, reconstruction, boundary condition or nonlinear update scheme yields the scheme of that name, as its results on any mesh and state show; the Jacobian flux is chosen independently of the flux. A name that is not documented is rejected with an error by the construction of the discretisation or of the update scheme, never silently replaced and never dereferenced.
 (Periodic boundaries are not available to the flow solver.)""",
 ["configurations", "inputs"], "All documented names, and undocumented names.", "Tests use only a few names.",
 ["src/utilities/afactory.cpp", "src/spatial/abc.cpp", "src/spatial/abctypemap.cpp"], [("create_const_inviscidflux, create_const_gradientscheme, create_const_reconstruction, create_const_nonlinearUpdateScheme, create_const_flowBCs", "src/utilities/afactory.cpp")], ["residuals, gradients, reconstructed values, Jacobians and relaxation factors of the objects returned"])
# ---------------------------------------------------------------- output
prop("W01", "Output files contain the computed solution for the right cells and points",
 """The VTU files list every point and every cell of the mesh once, in its order, with its connectivity, cumulative offsets and cell types, triangles and quadrilaterals alike. Point values are density, Mach number, pressure, temperature and velocity of the area-weighted average of the conserved states of the cells around the point
 (for scalar problems, the area-weighted average itself); cell values are those of the cell. The volume file lists each cell's centre and its density, velocity, pressure, temperature and Mach number. For each requested wall marker there is one surface file with each of its faces once: midpoint, pressure and friction coefficient, and the forces on it;
 for each other requested marker, each of its faces once with the velocity of its cell.""",
 ["inputs", "configurations"], "All small hybrid meshes, numberings, flow states, and choices of markers.", "No test reads any output but the functionals.",
 ["src/spatial/aoutput.cpp", "src/spatial/aoutput.hpp", "src/spatial/diffusion.cpp"], [("writeScalarsVectorToVtu_PointData, writeScalarsVectorToVtu_CellData, writeMeshToVtu, FlowOutput::postprocess_point, postprocess_cell, exportVolumeData, exportSurfaceData", "src/spatial/aoutput.cpp"), ("scalar_postprocess_point", "src/spatial/diffusion.cpp")], ["written files", "postprocess arrays"])
prop("W02", "Wall coefficients, forces and entropy error are those of the flow state",
 """On every face of a wall marker the pressure coefficient is twice the difference between the pressure of its cell and the free-stream pressure, and in viscous flow the friction coefficient is twice the shear stress along the tangent (n2,-n1), with the viscosity model of the simulation. Lift, pressure drag and friction drag of a marker are the integrals of these
 across and along the free-stream direction, divided by the length of all its faces; the entropy error is the area-weighted root of the squared relative deviations from the free-stream entropy. However the mesh is distributed, each face is reported by one process, and every process obtains the same totals, those of the undivided mesh.""",
 ["inputs", "configurations", "schedules"], "All small hybrid meshes, partitions, boundary markers, flow states and viscosity models.", "Regression tests compare totals of two flows; single-face values and divided walls are never checked.",
 ["src/spatial/flow_spatial.cpp", "src/spatial/aoutput.cpp"], [("FlowFV_base::computeSurfaceData", "src/spatial/flow_spatial.cpp"), ("FlowOutput::compute_entropy_cell", "src/spatial/aoutput.cpp")], ["computeSurfaceData results and rows", "entropy error"])

# ---------------------------------------------------------------- programs
prop("E01", "The solver program computes and reports the specified solution",
 """Run with a control file and a mesh, the program fvens_steady obtains, on any number of processes and with any reordering of cells it is asked for, the iterates the control file specifies: from the free stream, through the first-order start-up solve if there is one, each explicit step adding CFL number times local time step over area times residual, each implicit step solving the backward Euler system with the Jacobian of the chosen flux exactly, until the tolerance is reached or the steps are used up.
 It exits with status 0 and leaves exactly the files asked for, and the history, the VTU file, the volume file and the surface files describe that run and the state it ends in. A control file that cannot be carried out (unknown names, missing or ill-formed entries, missing files) makes it exit with a nonzero status and leave no results.""",
 ["inputs", "configurations", "histories"], "All small hybrid meshes in either file format, schemes, boundary conditions, start-up and step settings, explicit or implicit, one to three processes, cell orderings, and spoilt control files.", "Tests compare a few converged force coefficients on fixed meshes; iterates, multi-process histories and written files of the program are never checked.",
 ["src/fvens_steady.cpp", "src/utilities/casesolvers.cpp", "src/ode/aodesolver.cpp", "src/spatial/flow_spatial.cpp", "src/mesh/ameshutils.cpp"], [("main", "src/fvens_steady.cpp"), ("constructMeshFlow, initializeSystemVector, FlowCase::run_output", "src/utilities/casesolvers.cpp"), ("constructMesh, preprocessMesh", "src/mesh/ameshutils.cpp")], ["exit status", "files left by the program"])
prop("E02", "The mesh converter writes the mesh it was given",
 """The program convertformat reads a Gmsh or SU2 mesh and writes it as Gmsh or VTU: the same points in the same order, the same cells in the same order with their vertices in cyclic order and their region tags, and, in Gmsh files, every boundary edge with its marker and other tags, elements numbered consecutively. It exits with status 0 exactly if it has done so; an unknown output format, a missing input file or missing arguments yield a nonzero status and no file.""",
 ["inputs", "configurations"], "All small hybrid meshes, numberings, tags, coordinates and formats.", "No test runs the converter.",
 ["src/utilities/convertformat.cpp", "src/mesh/mesh.cpp", "src/mesh/meshreaders.cpp", "src/spatial/aoutput.cpp"], [("main", "src/utilities/convertformat.cpp"), ("UMesh::writeGmsh2", "src/mesh/mesh.cpp"), ("writeMeshToVtu", "src/spatial/aoutput.cpp"), ("readMesh", "src/mesh/meshreaders.cpp")], ["exit status", "written file"])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for p in P: f.write(json.dumps(p) + "\n")
    print(len(P), "properties")
