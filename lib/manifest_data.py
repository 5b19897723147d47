TV = "TLA+ trace validation (TLC) of the real code on TLC-enumerated inputs"
CHECKS = {
 "M01": (TV, "Every 2x2 mesh of quads/triangles/holes and seeded samples of 3x2 and 4x4 ones, in random numberings and boundary listings; connectivity compared with the specification's own derivation. Larger meshes and pinched domains are not covered."),
 "M02": (TV, "Exact integer geometry in the specification against quantised geometry of the code, on enumerated and sampled meshes."),
 "M03": (TV, "Enumerated and sampled meshes with matching periodic sides in either axis."),
 "M04": (TV, "Files generated from the specification's abstract meshes in both formats, read by the code and compared; write/read round trips."),
 "M05": (TV, "Each sampled mesh of up to 16 cells against itself and thirteen kinds of variants of it (one or several differences, other numbers of anything), in both orders."),
 "R01": (TV, "All permutations of small meshes, sampled permutations of others, and every supported ordering name on one process."),
 "R02": (TV, "Line building replayed as a state machine (start, extend, close) on anisotropic and mixed meshes with several thresholds; ties and equality left open."),
 "R03": (TV, "Enumerated and sampled meshes in random numberings."),
 "P01": (TV, "All owner assignments of small meshes and sampled ones of larger meshes on 2 to 4 processes, plus the trivial and Scotch partitioners; global identity re-derived from coordinates."),
 "P02": (TV, "All owner assignments of small meshes and sampled ones of larger meshes on 2 to 4 processes; interfaces compared with the cut edges of the specification's global mesh."),
 "P03": ("TLA+ design model of the exchange explored exhaustively by TLC (safety and termination), and trace validation of the real exchange under adversarial MPI schedules", "Schedules are explored exhaustively in the model for up to 3 (4) processes; in the code they are perturbed through the MPI profiling interface (sends read as late as legal, poisoned receive buffers, lagging ranks), not enumerated."),
 "P04": (TV, "Contiguous distributions over 2 to 4 processes, block sizes 1 and 4, forward and reverse ghost updates."),
 "S01": ("TLA+ model of the threaded face loop explored exhaustively by TLC, and "+TV, "Residuals and time steps against the specification's global operators on enumerated and sampled meshes of up to 16 cells, all fluxes, gradients, reconstructions, viscous and inviscid; thread schedules are exhaustive in the model only, in the code many repetitions on 8 threads. States with negative reconstructed density or pressure are outside the domain."),
 "S02": (TV, "2 to 4 processes, arbitrary parts (the numbering is random), every process owning at least one cell; agreement to round-off with the specification's operators on the undistributed mesh."),
 "S03": (TV, "Enumerated and sampled meshes, far-field, extrapolation, inflow-outflow and stream-parallel slip boundaries, all fluxes and reconstructions, serial and on 2 to 4 processes."),
 "S05": (TV, "Linear, constant and arbitrary fields on enumerated and sampled meshes, 1 and 4 variables."),
 "S06": (TV, "Linear, constant and arbitrary fields with arbitrary gradients on enumerated and sampled meshes, 1 and 4 variables; every reconstruction compared with its formula."),
 "S04": (TV, "States generated by the specification by regime (signs and sizes of normal and tangential Mach numbers, density and pressure ratios) for all seven schemes; agreement to round-off at the sampled points, not proved between them. The specification's own fluxes are checked for consistency, conservation, rotation and upwinding on the same pairs."),
 "S07": (TV, "Regime-sampled interior states, every boundary type, random marker tables; agreement to round-off."),
 "S08": (TV, "Point-wise flux and boundary Jacobians, and assembled matrices of flow and diffusion on up to 6 cells, serially and on 2 to 3 processes, against central differences of the specification's functions, away from kinks."),
 "S09": (TV, "Sampled states, gases and directions; derivatives against central differences of the specification's functions."),
 "O01": ("TLA+ model of pseudo-time iteration explored by TLC (safety, termination); its behaviours are replayed into the real solvers and the recorded runs validated by TLC", "All residual histories of up to three steps over six magnitudes with three tolerances in the model, and sampled longer ones; a sample that covers every outcome at every length is carried out by both solvers, scalar and system, on 1 to 3 processes."),
 "O02": ("TLA+ model of pseudo-time iteration explored by TLC; its behaviours are replayed into the real solvers and the recorded runs validated by TLC", "CFL numbers are checked through the increments they produce: direct and matrix-free operators, coupled and uncoupled Jacobians, 1 to 3 processes; linear systems are solved to 1e-8 (1e-5 matrix-free)."),
 "O03": (TV, "Sampled states and updates, and relaxed implicit runs with uncoupled systems on 1 to 3 processes."),
 "O04": (TV, "Scripted residuals and local time steps, orders 1 to 3, up to eight steps, on 1 to 3 processes; failing steps at any point."),
 "L02": (TV, "Enumerated and sampled meshes, block sizes 1 and 4, block and scalar matrix types, 1 to 4 processes, assembled twice."),
 "L03": (TV, "Flow (all fluxes, both orders, viscous or not) and diffusion on enumerated and sampled meshes, 1 to 4 processes; the specification's own one-sided difference of its residual, to 1e-5 relative and the rounding of that difference."),
 "L01": ("TLA+ model of scoped vector access explored by TLC (balance, stability); generated operation sequences are replayed into the real handlers and the recorded results validated by TLC", "All sequences of two operations and sampled ones of up to 16 on three handlers of four kinds and two vectors, on 1 to 3 processes; reference counts and object states are read from PETSc."),
 "W01": (TV, "Files of single-process runs on enumerated and sampled hybrid meshes in random numberings, with random choices of markers; numbers to the precision written."),
 "W02": (TV, "Single faces, forces and entropy error on enumerated and sampled hybrid meshes on 1 to 4 processes, constant and Sutherland viscosity, against the specification's formulas; the sign of the friction coefficient is the documented tangent's."),
 "L04": ("TLA+ model of array histories checked exhaustively by TLC; trace validation of the real arrays on its histories", "All histories of two operations and sampled histories of 8 and 20 operations on three arrays of up to 3x3 entries, integer and real."),
 "C01": (TV, "Valid control files of every supported kind, each with a deviation of every key (absent, ill-formed, unknown, too short), sampled combinations of up to four deviations, sampled words and numbers for all keys, and single typed options; unsteady settings are only parsed."),
 "C02": ("TLA+ model of the course of a run explored exhaustively by TLC (safety, termination); its behaviours are replayed into the real SteadyFlowCase and the recorded runs validated by TLC", "Every combination of start-up, outcome of both phases, implicit or explicit, output and one or two processes, with sampled output settings, on enumerated and sampled meshes; the phases' own results come from the solver classes, which O01 to O03 check."),
 "C03": (TV, "Every documented name of every slot, and misspelt, foreign and empty names, on sampled meshes and states; schemes identified by the results the specification computes for them."),
 "E01": ("TLA+ specification of the whole run, executed step by step by TLC: the specified iterates are compared with what the real program wrote for generated control files and meshes", "Up to five steps in each phase on enumerated and sampled meshes of up to 16 cells; 1 to 3 processes (files only from one, as documented); backward Euler systems with LLF, HLL, HLLC and AUSM Jacobians, constant viscosity and full updates, to 1e-4, where the known deviations of other Jacobians (S08) do not enter; iterates that leave the admissible states or meet kinks of the flux are not judged; spoilt control files of 14 kinds."),
 "E02": (TV, "Converter runs on enumerated and sampled meshes from both input formats to both output formats; files are parsed independently of the code."),
}
NA = {}
