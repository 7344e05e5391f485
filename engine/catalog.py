from . import rules
from .props import prop, na  # noqa

EQ_FILES = ["include/fub/equations/PerfectGas.hpp", "src/equations/PerfectGas.cpp", "src/equations/ShallowWater.cpp", "src/equations/Advection.cpp", "src/equations/Burgers.cpp", "include/fub/equations/PerfectGasMix.hpp", "src/equations/PerfectGasMix.cpp", "include/fub/equations/EulerEquation.hpp", "include/fub/equations/IdealGasMix.hpp", "src/equations/IdealGasMix.cpp"]
FLUX_FILES = ["src/equations/perfect_gas/HllemMethod.hpp", "src/equations/perfect_gas/EinfeldtSignalVelocities.hpp", "src/equations/perfect_gas/ExactRiemannSolver.hpp",
              "include/fub/flux_method/HllMethod.hpp", "include/fub/flux_method/GodunovMethod.hpp", "src/equations/ShallowWater.cpp", "src/equations/Advection.cpp", "src/equations/Burgers.cpp", "src/equations/ideal_gas_mix/EinfeldtSignalVelocities.hpp"]
INPUTS_WHY = "The statement quantifies over all real-valued states; the tests evaluate a handful of states (mostly one dimensional, at rest or symmetric), and most flux methods are not exercised by any test."

prop("E01", "Vectorised equations compute in every lane what the scalar ones compute",
     "For every equation, the array (SIMD chunk) version and the masked version of each operation on a state - conserved to complete, primitive to complete and back, physical flux, velocity, temperature and other observers - computes in each active lane exactly what the scalar version computes for that lane's state. Inactive lanes of masked operations hold neutral values and never influence active lanes.",
     ["inputs"], "all states, all lanes, all masks of the analysed witness family, all directions and space dimensions",
     INPUTS_WHY, EQ_FILES, [("scalar and array overloads", "src/equations/PerfectGas.cpp"), ("state arithmetic", "include/fub/StateArray.hpp")],
     {"pg_eq": 40, "simple_eq": 5, "mix_eq": 60, "igm_eq": 48}, "Laws: scalar result == lane l of the array result, other lanes hold unrelated symbols.")
prop("E02", "Equation of state is self-consistent and conversions invert each other",
     "Completing a conserved state satisfies the equation of state (pressure, temperature and speed of sound as functions of density and internal energy), leaves the conserved part unchanged, and is idempotent. Converting between conserved, primitive and complete states and back returns the original state.",
     ["inputs"], "all admissible states of perfect gases, perfect gas mixtures and ideal gas mixtures (of any reaction mechanism, whose thermodynamic functions stay symbolic) in 1, 2 and 3 dimensions, scalar and array variants",
     INPUTS_WHY, EQ_FILES, [("CompleteFromCons/CompleteFromPrim/PrimFromComplete", "src/equations/PerfectGas.cpp")],
     {"pg_eq": 15, "mix_eq": 25, "igm_eq": 16}, "Laws: round trips and textbook formulas of the ideal gas.")
prop("E03", "Physical fluxes are the fluxes of the conservation law; rotations invert",
     "The physical flux of each equation is the textbook flux of that conservation law in every direction (Euler, shallow water, linear advection, Burgers). Rotating a state by an orthogonal matrix rotates exactly its vector quantities, and reflecting at a plane reverses exactly the normal component, so that reflecting twice gives the state back.",
     ["inputs"], "all states, directions, and unit normals / orthogonal matrices",
     INPUTS_WHY, EQ_FILES + ["include/fub/State.hpp"], [("Flux", "src/equations/*.cpp"), ("Rotate, Reflect", "include/fub/equations/PerfectGas.hpp")],
     {"pg_eq": 15, "simple_eq": 5, "mix_eq": 16, "igm_eq": 10}, "Laws: code == textbook flux; reflection and rotation laws.")
prop("E04", "Isentropic changes of state keep entropy, composition and enthalpy",
     "Changing the pressure of a gas mixture isentropically yields a state on the same isentrope with the new pressure, the same mass fractions and passive scalars, the same total enthalpy and a consistent equation of state, also if done in place. An isentropic expansion with a given efficiency turns exactly that fraction of the enthalpy difference into kinetic energy, added to the kinetic energy the gas already had.",
     ["inputs"], "all admissible states, pressures and efficiencies of perfect gas mixtures in 1, 2 and 3 dimensions; two species and a passive scalar",
     "The statement quantifies over all states and pressures; no test calls these functions.", EQ_FILES[5:8], [("SetIsentropicPressure", "include/fub/equations/PerfectGasMix.hpp"), ("IsentropicExpansionWithoutDissipation", "include/fub/equations/EulerEquation.hpp")],
     {"mix_eq": 9}, "Laws: code == textbook isentropic relations.", note="Exact real arithmetic; powers of equal bases and exponents are equal, other identities of powers are not used.")
prop("E05", "States for a required mass flow solve the wave problem",
     "The state computed for a required mass flow per area is connected to the source state by the exact rarefaction or shock of the textbook, carries the transverse velocity and the composition of the source along and satisfies the equation of state. The pressure is the root of the mass flow at that state minus the required one, searched in an interval that encloses it; if none is found within twelve halvings or doublings of the source pressure this is reported as an error. The state left of a given star state is found by the inverse relations.",
     ["inputs"], "all admissible source states and required mass flows of perfect gases and perfect gas mixtures in 1, 2 and 3 dimensions; the bisection itself is taken at its contract",
     "The statement quantifies over all states and mass flows, on both sides of the switch between rarefaction and shock; no test calls these functions.", ["include/fub/equations/RequireMassflow.hpp"], [("RequireMassflow_SolveExactRiemannProblem", "include/fub/equations/RequireMassflow.hpp")],
     {"massflow": 20}, "Laws: code == Toro's exact relations across the left wave, with a recorded root search.", note="Exact real arithmetic; the bisection of Boost is replaced by its contract.")
prop("R01", "Numerical fluxes are consistent with the physical flux",
     "For every numerical flux method, two equal neighbouring states produce exactly the physical flux of that state. This holds for every admissible state, direction and space dimension.",
     ["inputs"], "all admissible states, all directions, dimensions 1-3; HLL, HLLEM with and without Larrouturou's upwinding, Godunov with the exact Riemann solver; perfect gas, perfect and ideal gas mixtures, shallow water, advection, Burgers",
     INPUTS_WHY, FLUX_FILES, [("ComputeNumericFlux", f) for f in FLUX_FILES[:3]],
     {"pg_flux": 18, "mix_flux": 18, "igm_flux": 6, "exact": 6, "simple_eq": 4, "sw_exact": 2}, "Laws: F(q,q) == f(q).")
prop("R02", "Array and masked numerical fluxes equal the scalar flux in every lane",
     "The array version and the masked (cut-cell) version of every numerical flux and of every stable time step estimate compute in each active lane exactly what the scalar version computes for that lane's pair of states. Lanes whose face is covered by a wall produce a zero flux and do not influence other lanes.",
     ["inputs"], "all pairs of admissible states per lane, all directions and dimensions, masks of the witness family",
     INPUTS_WHY + " The scalar, array and masked variants are three independent implementations of the same formula.", FLUX_FILES, [("scalar/array/masked ComputeNumericFlux and ComputeStableDt", "src/equations/perfect_gas/HllemMethod.hpp")],
     {"pg_flux": 70, "mix_flux": 105, "igm_flux": 36, "exact": 20, "simple_eq": 6, "sw_exact": 4}, "Laws: scalar == lane of array == lane of masked; covered lanes == 0.")
prop("R03", "Numerical fluxes are mirror symmetric and do not prefer a direction",
     "Mirroring a Riemann problem (swapping the two states and reversing the normal velocity) exactly mirrors its numerical flux, and leaves the stable time step unchanged. Relabelling the coordinate axes of both states and of the direction relabels the flux in the same way, so no coordinate direction is treated differently.",
     ["inputs"], "all pairs of admissible states, all directions, dimensions 1-3; exact symmetry is claimed for HLL (also of gas mixtures), HLLEM (both variants), perfect-gas Godunov and Burgers",
     INPUTS_WHY, FLUX_FILES, [("ComputeNumericFlux", f) for f in FLUX_FILES[:3]],
     {"pg_flux": 40, "mix_flux": 51, "igm_flux": 15, "exact": 10, "simple_eq": 4, "sw_exact": 2}, "Laws: F(Sr,Sl) == -S F(l,r); F(Pl,Pr,Pd) == P F(l,r,d).")
prop("R04", "Numerical fluxes evaluate the formulas of their method",
     "HLL evaluates the HLL formula with its signal velocities, the signal velocities of the perfect gas are Einfeldt's, HLLEM adds exactly the anti-diffusion of the contact and shear waves (with Larrouturou's upwinding of transverse momentum by the sign of the mass flux where selected), and isolated stationary contact and shear waves are resolved exactly. The exact Riemann solvers solve the textbook pressure/height equation and sample the exact self-similar solution (shock, rarefaction fan, contact), and Godunov's flux is the physical flux of that solution; upwinding takes the upwind state.",
     ["inputs"], "all pairs of admissible states, directions, dimensions 1-3; Newton iterations are followed for up to two steps",
     INPUTS_WHY, FLUX_FILES, [("ComputeNumericFlux", f) for f in FLUX_FILES[:3]],
     {"pg_text": 66, "simple_eq": 5, "sw_exact": 8}, "Laws: code == independent transcription of the published formula.",
     note="Exact real arithmetic; paths through Newton iterations are followed for up to two residual evaluations that do not converge.")
prop("R05", "Stable time steps are the cell width over the fastest signal speed",
     "The stable time step that a numerical flux method reports for a pair of states is the cell width divided by the largest absolute signal speed of that Riemann problem. It therefore never exceeds the CFL bound of the states it was computed from.",
     ["inputs"], "all pairs of admissible states, directions and dimensions",
     INPUTS_WHY, FLUX_FILES, [("ComputeStableDt", f) for f in FLUX_FILES[:5]],
     {"pg_text": 24, "simple_eq": 5, "sw_exact": 2}, "Laws: dt == dx / max|s| with independently written signal speeds.")
prop("R06", "Riemann solvers return the common state and agree lane by lane",
     "Solving a Riemann problem between two equal states returns exactly that state (all conserved and derived quantities), for HLL, HLLEM in both variants and the exact solvers. The array variants of the exact solvers return in each lane what the scalar solver returns for that lane.",
     ["inputs"], "all admissible states, sub- and supersonic, all directions and dimensions",
     INPUTS_WHY, FLUX_FILES, [("SolveRiemannProblem", f) for f in FLUX_FILES[:4]],
     {"riemann": 42}, "Laws: Solve(q,q) == q; scalar == lane.")

prop("R07", "Species and passive scalars are carried by the mass flux",
     "For every numerical flux of a mixture of perfect gases, mass, momentum and energy flux are those of the single gas and do not depend on the composition. For all gas mixtures, species and scalar fluxes are linear in the composition, so that a composition that is the same on both sides of a face is the composition of the flux, and fluxes of all species add up to the mass flux. With Larrouturou's upwinding the flux has exactly the composition of the cell the mass comes from.",
     ["inputs"], "all pairs of admissible states and compositions, directions, dimensions 1-3; HLL and both HLLEM fluxes of perfect gas mixtures, HLL of ideal gas mixtures",
     INPUTS_WHY, ["src/equations/perfect_gas/HllemMethod.hpp", "include/fub/flux_method/HllMethod.hpp", "src/equations/PerfectGasMix.cpp"], [("ComputeNumericFlux", "src/equations/perfect_gas/HllemMethod.hpp")],
     {"mix_flux": 60, "igm_flux": 12}, "Laws: mixture flux == single gas flux; species flux == composition times mass flux; linearity.")
prop("R08", "Numerical methods do not remember what they computed before",
     "The fluxes, time steps, Riemann solutions, refinement marks, ghost cells and completed states that a flux method, a detector, a boundary condition or an equation object computes are those that a fresh object computes from the same arguments. What the object has computed before for other states, directions, cell widths, lanes, masks or patches leaves no trace in them.",
     ["histories", "inputs"], "all states and parameters; a first use with arbitrary other states through the scalar, vector and masked interface, followed by a second; first and second order methods of all equations, the sweep over a patch, Riemann solvers, gradient detectors, reflective boundaries, completion of ideal gas mixtures",
     "All method objects carry scratch states between calls; whether they leak depends on the sequence of calls and on the data, and the tests use every object once.",
     FLUX_FILES + ["include/fub/flux_method/MusclHancockMethod.hpp", "include/fub/flux_method/MusclHancockMethod2.hpp", "src/equations/IdealGasMix.cpp", "include/fub/tagging_method/GradientDetector.hpp", "include/fub/boundary_condition/ReflectiveBoundary.hpp"], [("ComputeNumericFlux", "src/equations/perfect_gas/HllemMethod.hpp"), ("MusclHancock::ComputeNumericFlux", "include/fub/flux_method/MusclHancockMethod.hpp")],
     {"pg_flux": 30, "mix_flux": 24, "simple_eq": 10, "igm_flux": 10, "igm_eq": 6, "muscl": 42, "muscl_pg": 16, "igm_muscl": 6, "sweep": 7, "tagging": 4, "wall": 3, "riemann": 10}, "Laws: result of a used object == result of a fresh object, for arbitrary earlier arguments.")

PATCH_FILES = ["src/HyperbolicPatchIntegrator.cpp", "include/fub/HyperbolicPatchIntegrator.hpp", "include/fub/ext/Vc.hpp"]
BOUNDED = "Exact real arithmetic; all cell values, time steps and cell widths, on the listed patch shapes (shapes longer than one SIMD chunk included)."
prop("C01", "The patch update is conservative",
     "The conservative update of a patch sets every cell of the updated box to its previous value plus dt/dx times the difference of the numerical fluxes through its lower and upper face, and touches no other cell. The total amount of every conserved quantity therefore changes only by the fluxes through the ends of the patch. This holds for the sequential, SIMD and OpenMP variants, also when the update is done in place.",
     ["inputs"], "all cell values, fluxes, time steps and widths; patches with and without ghost cells in 1 to 3 dimensions, every direction, several components",
     "The statement quantifies over all patch contents and over patch layouts; the repository has no unit test of the patch integrator.",
     PATCH_FILES, [("HyperbolicPatchIntegrator::UpdateConservatively", "src/HyperbolicPatchIntegrator.cpp")],
     {"patch_update": 66}, "Laws: code == u - dt/dx (F_right - F_left) on the box, identity outside; telescoping sum.", note=BOUNDED)
SWEEP_FILES = ["include/fub/flux_method/FluxMethod.hpp", "include/fub/StateArray.hpp", "include/fub/StateRow.hpp", "include/fub/State.hpp"]
prop("C02", "A flux sweep evaluates every face of a patch once with its own stencil",
     "Computing the numerical fluxes of a patch evaluates the flux method at every face of the flux box with exactly the cells of that face's stencil (from left to right), the given time step, cell width and direction, and stores the result at that face and nowhere else. The sequential, SIMD and OpenMP sweeps agree, including the remainder of rows that do not fill a SIMD chunk.",
     ["inputs", "configurations"], "all flux methods (an uninterpreted one), all cell values; stencil widths 1 and 2, every direction, row lengths around the SIMD chunk size, views with and without surplus ghost cells",
     "The statement quantifies over all flux methods and patch contents; the tests never compare a SIMD sweep with a sequential one.",
     SWEEP_FILES, [("FluxMethod::ComputeNumericFluxes", "include/fub/flux_method/FluxMethod.hpp")],
     {"sweep": 28}, "The flux method is an uninterpreted function of its arguments. Laws: sweep == face by face evaluation.", note=BOUNDED)
prop("C03", "The stable time step of a patch is the minimum over all of its stencils",
     "The stable time step that a flux method reports for a patch is the minimum of the stable time steps of all stencils in the patch. None is skipped, in particular not the last one of a row or those in the remainder of a SIMD row, and values outside of the patch have no influence.",
     ["inputs", "configurations"], "all flux methods (an uninterpreted one), all cell values; stencil widths 1 and 2, every direction, row lengths around the SIMD chunk size",
     "A skipped stencil only matters when that very stencil carries the fastest wave; the statement quantifies over all patch contents.",
     SWEEP_FILES, [("FluxMethod::ComputeStableDt", "include/fub/flux_method/FluxMethod.hpp")],
     {"sweep": 14}, "The flux method is an uninterpreted function of its arguments. Laws: code == minimum over all stencils.", note=BOUNDED)

HIST = ("The collaborators (contexts, integrators, source terms, MPI reductions) are uninterpreted: every operation maps the history of all previous operations and its arguments to a new history, "
        "and every result, time step estimate and failure is an arbitrary function of the history. Two histories are equal only if the same operations ran with the same arguments in the same order on every path. ")
HNOTE = "Exact real arithmetic; all failures and estimates of the collaborators on the listed level counts, refinement ratios and space dimensions."
SPLIT = ["src/split_method/GodunovSplitting.cpp", "src/split_method/StrangSplitting.cpp", "src/split_method/StrangSplittingLumped.cpp", "include/fub/split_method/SplittingMethod.hpp"]
SOLVE = ["include/fub/solver/DimensionalSplitLevelIntegrator.hpp", "include/fub/solver/SplitSystemSourceLevelIntegrator.hpp", "include/fub/solver/NoSubcycleSolver.hpp", "include/fub/solver/SubcycleFineFirstSolver.hpp"]
HWHY = "The statement quantifies over all failure patterns and histories of the parts of a time step; no test of the repository exercises the solvers with failing parts."
prop("S01", "Operator splitting applies every operator for exactly the time step",
     "The Godunov, Strang and lumped Strang splittings invoke their one, two or three operators in the documented order and with the documented fractions of the time step, so that the substeps of every operator sum to the time step. The first failing operator ends the sequence and its error is returned unchanged. The type-erased splitting method behaves like the method it wraps.",
     ["histories", "inputs"], "all time steps and all failures of the operators, one to three operators", HWHY, SPLIT, [("Advance", f) for f in SPLIT[:3]],
     {"splitting": 15}, HIST + "Laws: code == table of (operator, fraction) pairs, cut at the first failure.", note=HNOTE)
prop("S02", "A directional split step never uses a time step larger than its CFL bound",
     "Advancing one level performs for every directional sub step, in this order: boundary condition (from the second visit of a direction on), the stable time step reduced over all ranks, fluxes, conservative update, completion and accumulation of the fluxes with the weight of that sub step. If the reduced stable time step is smaller than the sub step, no flux is computed and the error carries that time step and level. Directions alternate with the parity of cycle plus sub cycle, and ghost cells are filled for all regridded levels before a level is advanced.",
     ["histories", "inputs"], "all stable time steps, ranks 1-3, all splitting methods, even and odd cycles and sub cycles", HWHY, SOLVE[:1], [("AdvanceLevelNonRecursively", SOLVE[0]), ("MakeSplitDirections", SPLIT[3]), ("MinAll", "src/ext/Mpi.cpp")],
     {"solver": 20}, HIST + "Laws: code == documented sequence.", note=HNOTE)
prop("S03", "Source terms and hyperbolic system are advanced by the same time step",
     "The split system-source integrator advances source term and hyperbolic system in the order and with the fractions of its splitting method, stops at the first failure of either and returns that error. Its pre- and post-advance hooks reach both parts.",
     ["histories", "inputs"], "all failures of source and system, all splitting methods", HWHY, SOLVE[1:2], [("AdvanceLevelNonRecursively", SOLVE[1])],
     {"solver": 5}, HIST + "Laws: code == documented sequence.", note=HNOTE)
prop("S04", "A hierarchy step advances all levels by the same time and couples them once",
     "Advancing the hierarchy resets the coarse-fine fluxes, advances the finer level first (in as many equal sub steps as the refinement ratio when subcycling, in one step otherwise) such that all levels cover the same time, then advances the level itself, corrects its fluxes, coarsens conservatively, completes the coarsened state and copies the result back. The first failing part ends the step at once; when subcycling its error is returned as the corresponding time step of the coarsest level.",
     ["histories", "inputs"], "all failures and error estimates; 1 to 3 levels, refinement ratios 2 and 4", HWHY, SOLVE[2:], [("AdvanceLevel", SOLVE[2]), ("AdvanceLevel", SOLVE[3])],
     {"solver": 9}, HIST + "Laws: code == documented recursion.", note=HNOTE)
prop("S05", "The stable time step of a hierarchy is the minimum over everything it advances",
     "The stable time step of a level is the minimum over all directions and, with source terms, of system and source. The stable time step of a hierarchy is the minimum over all levels, each multiplied by its total refinement ratio when subcycling, and is reduced over all ranks with the minimum.",
     ["histories", "inputs"], "all stable time steps of the parts; 1 to 4 levels, refinement ratios 2 and 4, 1 to 3 directions", HWHY, SOLVE, [("ComputeStableDt", f) for f in SOLVE],
     {"solver": 10}, HIST + "Laws: code == minimum.", note=HNOTE)
prop("S06", "The time loop reaches output and final times exactly and survives rejected steps",
     "Every step of a simulation is limited by the time to the final time, by the time to the next output, and by the CFL factor times the stable time step, or times the estimate of the preceding rejected step. A rejected step restores the last accepted state before it is retried, or ends the simulation when no backup is kept. Every accepted state that is due for output, and the last one, is output exactly once; the loop ends at the final time or the maximal number of cycles.",
     ["histories", "inputs"], "all solvers, outputs, failures and time steps, up to six rejected or accepted steps per loop", HWHY, ["include/fub/RunSimulation.hpp"], [("RunSimulation", "include/fub/RunSimulation.hpp")],
     {"run": 4}, HIST + "Logging, timers and version output are replaced by stand-ins. Laws: code == documented time loop.", trials=3000, note=HNOTE + " Loops are followed for six input dependent decisions.")
prop("S07", "Outputs are scheduled at every multiple of their intervals and frequencies",
     "An output is due exactly at the start, at cycles that are multiples of one of its positive frequencies, and at times within the tolerance above a multiple of one of its intervals; the next output time is the earliest next multiple of its positive intervals plus the tolerance. A collection of outputs is due when any of them is, reports the earliest next time, and invokes exactly the outputs that are due.",
     ["inputs", "histories"], "all times, intervals and tolerances, lists of up to three intervals or outputs, cycles up to 25", "The statement quantifies over all times and intervals; the tests do not cover output scheduling.",
     ["include/fub/output/OutputAtFrequencyOrInterval.hpp", "include/fub/output/MultipleOutputs.hpp", "include/fub/output/AsOutput.hpp"], [("ShallOutputNow, NextOutputTime", "include/fub/output/OutputAtFrequencyOrInterval.hpp"), ("MultipleOutputs", "include/fub/output/MultipleOutputs.hpp")],
     {"output": 21}, HIST + "fmod is uninterpreted. Laws: code == documented schedule.", note=HNOTE)

M_FILES = ["include/fub/flux_method/MusclHancockMethod.hpp", "include/fub/flux_method/MusclHancockMethod2.hpp", "include/fub/flux_method/Gradient.hpp", "include/fub/flux_method/Reconstruct.hpp",
           "src/equations/perfect_gas/MusclHancockCharacteristicMethod.hpp", "src/equations/perfect_gas/MusclHancockPrimMethod.hpp", "src/equations/perfect_gas/ThirdOrderRungeKuttaMethod.hpp", "src/equations/ideal_gas_mix/MusclHancockCharacteristicMethod.hpp", "src/equations/ideal_gas_mix/MusclHancockPrimMethod.hpp"]
M_WHY = INPUTS_WHY + " The second order methods are only run, if at all, by examples."
M_DOM = "all stencils of admissible states, time steps and cell widths, every limiter (min-mod, van Leer, upwind, central where offered), every gradient and reconstruction, dimensions 1-3 and every direction"
prop("M01", "Second order fluxes agree between scalar, array and masked versions",
     "For every second (and third) order flux method, the array version computes in each lane exactly what the scalar version computes for that lane's stencil, and the masked version computes the same in every lane whose cells are uncovered. Covered faces produce a zero flux and never influence other lanes.",
     ["inputs"], M_DOM + "; perfect gas, ideal gas mixtures, shallow water, advection and Burgers; masks of the witness family", M_WHY, M_FILES,
     [("ComputeNumericFlux", f) for f in M_FILES[:4]], {"muscl": 110, "muscl_pg": 44, "igm_muscl": 32}, "Laws: scalar == lane of array == lane of masked; covered lanes == 0.")
prop("M02", "Second order fluxes preserve constant states",
     "On a stencil of equal states every second and third order flux method returns the flux of its first order base method, the physical flux of that state. Neither limiter nor reconstruction nor the predictor step introduces a change.",
     ["inputs"], M_DOM, M_WHY, M_FILES, [("ComputeNumericFlux", f) for f in M_FILES[:4]], {"muscl": 34, "muscl_pg": 13, "igm_muscl": 8}, "Laws: F(q,...,q) == f(q).")
prop("M03", "Second order methods reconstruct, predict and limit by their formulas",
     "Second order fluxes are the base flux of the two states obtained from limited slopes of the method's variables (conserved, primitive or characteristic), extrapolated to the face and advanced by half a time step with the physical flux or its Jacobian. Limited slopes vanish at extrema, and next to covered cells the slope is switched off or one-sided as documented; the third order method is the three stage Runge-Kutta scheme with viscosity and heat conduction.",
     ["inputs"], M_DOM, M_WHY, M_FILES, [("ComputeNumericFlux", f) for f in M_FILES[:4]] + [("limiters", M_FILES[2])], {"muscl": 110, "muscl_pg": 37, "igm_muscl": 24}, "Laws: code == independent transcription of the published scheme.")
prop("M04", "Second order methods keep the stable time step of their base method",
     "The stable time step of a second or third order flux method for a stencil is that of its first order base method for the two cells next to the face. Scalar, array and masked versions agree, and covered lanes never limit the time step.",
     ["inputs"], M_DOM, M_WHY, M_FILES, [("ComputeStableDt", f) for f in M_FILES[:4]], {"muscl": 90, "muscl_pg": 32, "igm_muscl": 24}, "Laws: code == dt of the base method.")

GRID = ["include/fub/PatchDataView.hpp", "include/fub/ForEach.hpp", "include/fub/State.hpp", "include/fub/StateArray.hpp", "include/fub/StateRow.hpp", "include/fub/ext/Eigen.hpp", "include/fub/core/mdspan.hpp"]
GNOTE = "Indices and box bounds are arbitrary integers (wrap around excluded); patch shapes are the listed ones, all cell values are arbitrary."
GWHY = "The statements quantify over all indices, shapes and cell contents; an off-by-one or swapped extent on a shape that is not sampled goes unnoticed."
prop("G01", "Index boxes behave like sets of cells",
     "An index lies in a box exactly if every coordinate is at least the lower and below the upper bound; containment, equality, intersection and neighbourhood of boxes agree with that reading. Growing, shrinking, shifting, embedding and projecting move exactly the named bounds of the named direction, and a face index maps to the cell on its left and on its right.",
     ["inputs"], "all integer bounds and indices, ranks 1 to 4, every direction", GWHY, GRID[:1], [("IndexBox, Contains, Intersect, Grow, Shrink, Shift", GRID[0])],
     {"grid": 68}, "Laws over symbolic integers: code == membership definition.", note=GNOTE)
prop("G02", "Loops over boxes, layouts and rows visit every cell exactly once",
     "Iterating over an index box or over the index space of a memory layout calls the function once for every index and for no other, whatever lower bound and extents. Iterating over rows of several patches visits every row once, with the complete row of each patch at the same cells, also for subviews of larger patches.",
     ["inputs", "configurations"], "listed boxes of rank 1 to 4 (empty, one cell wide and unequal extents included), contiguous and strided layouts, all cell values", GWHY, GRID[1:2] + GRID[4:5], [("ForEachIndex", GRID[1]), ("ForEachRow", GRID[4])],
     {"grid": 26}, "The visited indices are summed through an uninterpreted function, so that order does not matter but every visit counts.", note=GNOTE)
prop("G03", "Patch views read and write exactly the addressed cells",
     "Loading a state from a view returns every component of exactly the addressed cell, and storing writes exactly these and nothing else, for whole patches, subviews and shrunk views. Vectorised loads and stores move consecutive cells to and from consecutive lanes, and partial ones touch no cell beyond their length; slices, component numbering and buffers follow the same order.",
     ["inputs", "configurations"], "all cell values; perfect gas in 1 to 3 dimensions, shallow water; complete, conserved and primitive states; contiguous and strided views with shifted origin", GWHY, GRID, [("PatchDataView", GRID[0]), ("Load, Store", GRID[2]), ("Load, LoadN, Store, StoreN", GRID[3])],
     {"grid": 130}, "Laws: code == independent index arithmetic on the storage.", note=GNOTE)
prop("G04", "States form a vector space and can be assigned",
     "Adding, subtracting and scaling states acts on every component independently, newly constructed states are zero in every component, and the conserved part of a complete state is exactly its conserved components. Assigning a state or view copies all of it and yields the assigned object.",
     ["inputs"], "all component values; conserved, complete and primitive states of several equations and dimensions", GWHY, GRID[2:3], [("Conservative, Complete, Primitive, BasicView", GRID[2])],
     {"grid": 18}, "Laws: code == component by component arithmetic.", note=GNOTE)

WALL = ["src/boundary_condition/ReflectiveBoundary.cpp", "include/fub/boundary_condition/ReflectiveBoundary.hpp"]
prop("H01", "Reflective walls mirror the flow and let nothing pass",
     "The reflective boundary fills every ghost cell with the state of its mirror cell, with exactly the normal momentum reversed, and touches no other cell; mirroring an index twice gives it back. The numerical flux between a state and its mirror image carries no mass, no energy and no tangential momentum, in every direction and at lower and upper walls.",
     ["inputs"], "all cell values, all integer indices and boxes; dimensions 1-3, every direction and side, one to three ghost layers; HLL and both HLLEM fluxes",
     "The statements quantify over all states, boxes and directions; the tests cover a handful of ghost cells in one layout.",
     WALL + FLUX_FILES[:4], [("ReflectiveBoundary::FillBoundary, ReflectIndex", WALL[0]), ("Reflect", "src/equations/PerfectGas.cpp")],
     {"wall": 96}, "Laws: code == mirrored patch; wall flux == 0.", note=BOUNDED)
CUT = ["src/CutCellData.cpp", "include/fub/CutCellData.hpp", "include/fub/cutcell_method/KbnStabilisation.hpp", "src/cutcell_method/KbnStabilisation.cpp", "include/fub/cutcell_method/MyStabilisation.hpp", "src/cutcell_method/MyStabilisation.cpp", "include/fub/cutcell_method/MdGradients.hpp"]
CWHY = "The statement quantifies over all geometries and states; the cut-cell methods are run by examples only, never by a test."
prop("K01", "Stabilised cut-cell fluxes are the documented combination of fluxes",
     "The stabilised flux of a cut-cell face is the sum of regular, left-shielded and right-shielded flux, weighted with the unshielded and shielded fractions of that face. The shielded fluxes of the flux stabilisation interpolate between boundary flux and regular flux by the distance of the boundary from the face, limited to a full cell. If all fluxes agree and the fractions sum to one, the stabilised flux is that flux, for every face including those that do not fill a SIMD chunk.",
     ["inputs", "configurations"], "all fluxes, fractions and boundary centroids; dimensions 2 and 3, every direction, rows shorter and longer than a SIMD chunk", CWHY, CUT, [("ComputeStableFluxComponents", f) for f in (CUT[3], CUT[5])],
     {"cutcell": 36}, "Laws: code == documented formula, face by face.", note=BOUNDED)
prop("K02", "Cut-cell geometry queries return the geometry that was given",
     "A cell is a cut cell exactly if it is neither empty nor regular, that is if it is partly filled, or filled with a partly covered face. Normals point into the fluid, and relative centroids of volume, boundary, unshielded faces and singly shielded parts are converted to absolute coordinates with the width of their own direction. The parts of a shifted cell are read with their own cells, volumes and centroids, and their common centroid is volume weighted.",
     ["inputs"], "all fractions, normals, centroids and cell widths; dimensions 2 and 3 where offered, every direction and side", CWHY, CUT[:2], [("IsCutCell, GetAbsolute...Centroid, GetBoundaryNormal", CUT[0])],
     {"cutcell": 20, "hgrid": 6}, "Laws: code == elementary geometry.", note=BOUNDED)
prop("K03", "Masked sweeps evaluate every open face with its own fractions",
     "The regular fluxes of a cut-cell patch are the masked numerical fluxes of every face, evaluated with the stencil, volume fractions and face fraction of exactly that face. The stable time step of a cut-cell patch is the minimum over exactly the open faces of the patch.",
     ["inputs", "configurations"], "all flux methods (an uninterpreted one), cell values and fractions; stencil widths 1 and 2, dimensions 2 and 3, row lengths around the SIMD chunk size", CWHY, CUT[2:4] + SWEEP_FILES, [("ComputeRegularFluxes, ComputeStableDt", CUT[2])],
     {"cutsweep": 14}, "Laws: sweep == face by face evaluation.", note=BOUNDED)
prop("K04", "Embedded walls only exert pressure, computed from the rotated wall problem",
     "The boundary flux of every cut cell is the flux of its reference state, with the pressure of the Riemann problem between the cell state and its mirror image in the frame of the wall normal, or with the given mirror state where the mask says so; cells that are not cut are left alone. Reference states are the solution of that wall problem rotated back. The rotation used is orthogonal and takes the first unit vector to the second.",
     ["inputs"], "all states, all wall normals (rationally parametrised unit vectors), all Riemann solvers (an uninterpreted one), dimensions 2 and 3, every direction", CWHY, CUT[2:4] + ["include/fub/State.hpp"], [("ComputeBoundaryFluxes, PreAdvanceHierarchy", CUT[2]), ("MakeRotation", CUT[0])],
     {"cutsweep": 13}, "Laws: code == documented wall problem.", note=BOUNDED)
prop("K05", "The second order cut-cell method uses each reconstruction at its place",
     "The second order cut-cell method computes regular fluxes from states and gradients of the two neighbouring cells, open faces of cut cells from the regular h-grid, boundary fluxes from the embedded-boundary h-grid, and shielded fluxes on the side that is more open, then combines them with the fractions of the face. Reference states are integrated over the h-grid of each cut cell, and the stable time step is the minimum over all open faces.",
     ["inputs", "configurations"], "all reconstructions, flux methods, gradients (uninterpreted ones), states and fractions; dimension 2, both directions, patch shapes around the SIMD chunk size", CWHY, CUT[4:6], [("MyCutCellMethod", CUT[4])],
     {"mycut": 13}, "Laws: code == documented method cell by cell.", note=BOUNDED)
prop("K06", "Gradients are exact for linear data and vanish in covered cells",
     "Gradients in cut cells reproduce every linear function of the volume centroids exactly, whichever of the neighbours of the cell are open. Regular cells use the given one-dimensional gradient in each direction, covered cells have no gradient, and the upwind limiter switches all gradients off.",
     ["inputs", "configurations"], "all linear functions, centroids and cell widths; nine patterns of open neighbours with up to two covered ones; dimension 2", CWHY, CUT[5:], [("MdGradients::ComputeGradients", CUT[6])],
     {"mycut": 13}, "Eigen's QR least squares solver is replaced by the normal equations (its contract). Laws: gradient(linear) == slope.", note=BOUNDED)

SYMB = "Exact real arithmetic; three species (eleven in the hydrogen mechanism), species functions uninterpreted, all values arbitrary."
REACT = ["src/equations/ideal_gas_mix/FlameMasterReactor.cpp", "include/fub/equations/ideal_gas_mix/FlameMasterReactor.hpp"]
RWHY = "The statement quantifies over all mechanisms, temperatures, densities and compositions; no test touches the reactor."
prop("K07", "Shifted cells along walls are linear reconstructions at their centres",
     "The states and slopes on both sides of the parts of a face next to a wall are linear reconstructions with the gradients of their cells: half a cell to both sides of the centre of the open part, length-weighted averages over the parts of a shifted cell that lie in two cells, and, across the wall, the reference state of the cell at half a cell from the wall and its mirror image. Integration over parts of cells weights the states at their centres and every gradient with the volumes of the parts, and is refused if there are none or one lies in a covered or missing cell.",
     ["inputs", "configurations"], "all states, gradients, fractions, centroids, unit normals and widths of a perfect gas in 2 dimensions; both directions, walls on both sides, conservative and primitive gradients, up to nine parts", CWHY,
     ["include/fub/cutcell_method/HGridReconstruction.hpp", "include/fub/cutcell_method/HGridReconstruction2.hpp", CUT[0]], [("HGridReconstruction, HGridIntegration", "include/fub/cutcell_method/HGridReconstruction.hpp"), ("HGridReconstruction2, LinearFunctional", "include/fub/cutcell_method/HGridReconstruction2.hpp")],
     {"hgrid": 27}, "Laws: code == elementary geometry of the shifted cells.", note="Exact real arithmetic; CGAL's exact numbers are taken as real numbers.")
prop("K08", "Cut-cell methods do not remember what they computed before",
     "The fluxes, time steps, reference states, gradients and reconstructions that a cut-cell method computes are those that a fresh method object computes from the same arguments. What the object has computed before for other patches, geometries, directions, time steps or cell widths leaves no trace in them.",
     ["histories", "inputs"], "all states, gradients, fractions, centroids, masks and widths on the listed patch shapes; every stage used once for another patch with another geometry, shape and direction, followed by a second use; both cut-cell methods, least squares gradients, reconstructions of shifted cells in conservative and primitive variables",
     "The methods keep scratch states, stencils and embedded boundary states between calls; whether they leak depends on the sequence of patches, and the tests do not exercise cut cells.",
     ["include/fub/cutcell_method/KbnStabilisation.hpp", "include/fub/cutcell_method/MyStabilisation.hpp", "include/fub/cutcell_method/HGridReconstruction.hpp", "include/fub/cutcell_method/HGridReconstruction2.hpp", "include/fub/cutcell_method/MdGradients.hpp"], [("KbnCutCellMethod", "include/fub/cutcell_method/KbnStabilisation.hpp"), ("MyCutCellMethod::ComputeCutCellFluxes", "include/fub/cutcell_method/MyStabilisation.hpp"), ("HGridReconstruction", "include/fub/cutcell_method/HGridReconstruction.hpp"), ("MdGradients::ComputeGradients", "include/fub/cutcell_method/MdGradients.hpp")],
     {"cutsweep": 11, "mycut": 11, "hgrid": 20}, "Laws: result of a used object == result of a fresh object, for arbitrary earlier arguments.", note=BOUNDED)
prop("F01", "Reactor observers obey the ideal gas law and mass-weighted mixing",
     "For every mechanism, temperature, density and composition a reactor reports pressure, mean molar mass, heat capacities, enthalpy, internal energy, entropy and production rates as given by the ideal gas law and mass-weighted mixing of the species data, in the scalar and in every lane of the array interface. Setting pressure, density, temperature, mole or mass fractions is read back exactly, with fractions normalised and negative mass fractions dropped. Copied and assigned reactors have the state of the original and do not share it.",
     ["inputs", "histories"], "all species functions (uninterpreted), states and non-degenerate compositions of a mechanism with three species; setters in the order density, fractions, temperature, then one more; copies, moves and assignments", RWHY, REACT, [("FlameMasterReactor", REACT[0])],
     {"reactor": 21}, "Laws: observers == formulas over an uninterpreted mechanism.", note=SYMB)
prop("F02", "Advancing a reactor is adiabatic at constant volume and leaves a consistent state",
     "The equations integrated by a reactor are mass action at constant density with exactly the temperature change that keeps the internal energy. After an advance, time and arguments of the feedback, density, composition, temperature and all derived quantities belong to the result of the solver; advancing by nothing changes nothing, and the reported time of the steepest temperature rise is the end of the steepest step. An isentropic pressure change follows dT = dp/(rho cp) and ends at the given pressure.",
     ["inputs", "histories"], "all mechanisms with three species, states, time steps and solver results (uninterpreted functions); the right hand sides are observed through one explicit Euler step", RWHY, REACT, [("Advance, AdvanceAndFindMaxdT, SetPressureIsentropic", REACT[0])],
     {"reactor": 8}, "Laws: Advance with symbolic solvers == formulas.", note=SYMB)
prop("F03", "Setting energy or enthalpy finds the temperature that has it",
     "Setting the internal energy or the enthalpy of a reactor changes the temperature only, and the search ends only if the energy has been met or the last change of temperature is below the given tolerance, for each open lane of the array interface. With constant heat capacities the temperature is found exactly.",
     ["inputs"], "all targets, states, tolerances and compositions of three species; constant heat capacities for the exact result, uninterpreted ones for the stopping rule, steps below the 100 K limiter; one or two iterations, scalar, full and masked arrays", RWHY, REACT, [("SetInternalEnergy, SetEnthalpy, SetInternalEnergyArray", REACT[0])],
     {"reactor": 9}, "Laws: result == exact inverse; stopping implies convergence. Later iterations of the loop are cut (they run the same code).", note=SYMB)
prop("F04", "ODE solver integrates the given system over the given interval or reports failure",
     "The implicit Runge-Kutta solver hands the given right hand side, Jacobian, feedback, tolerances, initial value and interval to its kernel, with sufficient work space, and returns exactly the kernel's result. It returns if and only if the kernel reports success; if the step size became too small it starts over from the initial value in two halves of the interval. A cloned solver keeps its parameters.",
     ["inputs", "fault_sequences"], "all systems, Jacobians, feedbacks (uninterpreted functions), initial values, intervals, parameters and return codes of the kernel; systems of 1 to 3 variables",
     "The statement quantifies over all systems and failures of the kernel; no test makes the kernel fail.", ["src/ode_solver/RadauSolver.cpp", "include/fub/ode_solver/RadauSolver.hpp", "include/fub/ode_solver/OdeSolver.hpp"], [("RadauSolver::integrate", "src/ode_solver/RadauSolver.cpp")],
     {"ode": 11}, "The Fortran kernel is replaced by an uninterpreted function of everything it is given. Laws: integrate == kernel called as documented.", note=SYMB)
BURKE = ["src/equations/ideal_gas_mix/mechanism/Burke2012.cpp", "include/fub/equations/ideal_gas_mix/mechanism/Burke2012.hpp"]
prop("F05", "Hydrogen mechanism conserves elements and follows mass action",
     "The production rates of the hydrogen mechanism conserve every chemical element and the mass exactly, and are the sums of its 27 reversible reactions, each proportional to the concentrations of its partners and third bodies, with coefficients that depend on the temperature only (except for pressure dependent reactions); the given concentrations are left alone. Enthalpies and heat capacities are the same from the scalar and from the array interface, and below 300 K they continue linearly with constant heat capacity.",
     ["inputs"], "all concentrations, temperatures and pressures; the 11 species and 54 one-way reactions of the Burke 2012 mechanism (rounding in the last digits of the heat capacity fits at exactly 300 K aside)",
     "The statement quantifies over all compositions and temperatures; no test touches the mechanism.", BURKE, [("Burke2012", BURKE[0])],
     {"burke": 13}, "Laws: rates == mass action of a reaction table; element sums == 0 (decimal constants are exact).", note=SYMB)

TAG = ["include/fub/tagging_method/GradientDetector.hpp", "include/fub/tagging_method/TagBuffer.hpp", "src/tagging_method/TagBuffer.cpp", "include/fub/tagging_method/TagCutCells.hpp", "src/tagging_method/TagCutCells.cpp"]
TWHY = "The statement quantifies over all cell contents and positions of the tag or jump within a patch; no test runs a tagging method."
prop("T01", "Cells with a relative jump above the tolerance are tagged, and no others",
     "The gradient detector tags a cell exactly if in some direction the relative difference of a given quantity to one of its two neighbours exceeds the tolerance of that quantity, wherever both neighbours exist; equal or zero cells are never tagged and existing tags stay. With cut cells a direction counts only if the cell and both neighbours contain fluid. Detectors for quantities of single cells and of whole rows decide alike.",
     ["inputs", "configurations"], "all states, tolerances, fractions and existing tags; one and two quantities, dimensions 1-3, patches shorter and longer than a SIMD chunk, tags on inner cells or on all cells", TWHY, TAG[:1], [("GradientDetector", TAG[0])],
     {"tagging": 22}, "Laws: code == definition cell by cell.", note=BOUNDED)
prop("T02", "The tag buffer surrounds every tagged cell",
     "The tag buffer tags exactly the cells that lie within its width of a tagged cell in every direction, diagonally included and on both sides; a buffer of width zero changes nothing.",
     ["inputs", "configurations"], "all patterns of tags; widths 0 to 4, dimensions 1-3, listed patch shapes, the boundary of the patch included", TWHY, TAG[1:3], [("TagBuffer::TagCellsForRefinement", TAG[2])],
     {"tagging": 20}, "Laws: code == definition cell by cell.", note=BOUNDED)
prop("T03", "Cut cells are tagged",
     "Exactly the cells whose fluid volume fraction lies strictly between zero and one are tagged in addition to those that were; cells without a volume fraction are left alone.",
     ["inputs"], "all volume fractions and existing tags; dimensions 2 and 3", TWHY, TAG[3:], [("TagCutCells::TagCellsForRefinement", TAG[4])],
     {"tagging": 4}, "Laws: code == definition cell by cell.", note=BOUNDED)

GEOM = ["src/geometry/Halfspace.cpp", "src/geometry/Cone.cpp", "src/geometry/Polygon.cpp", "include/fub/geometry/Invert.hpp", "include/fub/geometry/RotateAxis.hpp", "include/fub/geometry/RotateAroundPoint.hpp", "include/fub/geometry/PolymorphicGeometry.hpp"]
DWHY = "The statement quantifies over all shapes and points; the tests sample a few points of one polygon."
DNOTE = "Exact real arithmetic; all shapes and points."
prop("D01", "Half spaces report the signed distance to their plane",
     "The distance to a half space is the signed Euclidean distance to its plane, positive on the side of the normal, measured against the offset and independent of the length of the given normal.",
     ["inputs"], "all normals, offsets and points", DWHY, GEOM[:1], [("Halfspace", GEOM[0])], {"geometry": 3}, "Laws: code == elementary geometry.", note=DNOTE)
prop("D02", "Cones report the signed distance to their closest surface point",
     "The distance to a cone is the Euclidean distance to the closest point of its surface (lateral face, base disc, rim and tip), negative inside; the flag of the cone flips the sign only.",
     ["inputs"], "all cones and points off the axis by more than the tolerance of the code, and points on the axis", DWHY, GEOM[1:2], [("ConeIF::ComputeDistanceTo", GEOM[1])], {"geometry": 3}, "Laws: code == elementary geometry.", note=DNOTE)
prop("D03", "Polygons report the signed distance to their closest edge",
     "The distance to a closed polygon is the Euclidean distance to the closest point of its edges, with positive sign exactly if a ray from the point crosses the boundary an odd number of times. The number of edges may or may not be a multiple of the SIMD chunk size, and edges of length zero do no harm.",
     ["inputs", "configurations"], "all vertices and points; polygons of 3 to 17 edges around multiples of the SIMD chunk size", DWHY, GEOM[2:3], [("Polygon::ComputeDistanceTo", GEOM[2])], {"geometry": 10}, "Laws: code == edge by edge definition.", note=DNOTE)
prop("D04", "Geometry combinators transform the point, not the geometry",
     "Inverting a geometry negates its distance, rotating around the first axis evaluates a plane profile at the radius, rotating around a point evaluates the geometry at the point turned back, and dropped or missing coordinates are ignored or zero. Type-erased geometries and their copies report the distances of the geometry they were made from.",
     ["inputs"], "all geometries (uninterpreted ones), points, angles and centres; two and three dimensions", DWHY, GEOM[3:], [("Invert", GEOM[3]), ("RotateAxis", GEOM[4]), ("RotateAroundPoint", GEOM[5]), ("PolymorphicGeometry", GEOM[6])], {"geometry": 9}, "Laws: code == composition of functions.", note=DNOTE)

ANY = ["include/fub/AnyBoundaryCondition.hpp", "include/fub/AnyInitialData.hpp", "include/fub/AnyTaggingMethod.hpp", "include/fub/HyperbolicMethod.hpp", "include/fub/cutcell_method/AnyMdLimiter.hpp", "src/cutcell_method/AnyMdLimiter.cpp"]
prop("V01", "Type-erased components behave like the values they store",
     "A type-erased boundary condition, initial condition, tagging method, flux method, reconstruction, time integrator or limiter forwards every call with its arguments to the component it was made from and returns its result. Copies and assignments hold an independent component in the same state, moves keep it, and self-assignment changes nothing. Empty boundary, initial and tagging components do nothing, and so do their copies.",
     ["histories"], "all components (uninterpreted ones with internal state), arguments and results; sequences of calls, copies, moves, assignments and self-assignments",
     "The statement quantifies over all components and histories of copies; the tests never copy one and look at both.", ANY, [("AnyBoundaryCondition", ANY[0]), ("AnyInitialData", ANY[1]), ("AnyTaggingMethod", ANY[2]), ("AnyFluxMethod, AnyReconstruction, AnyTimeIntegrator", ANY[3]), ("AnyLimiter", ANY[4])],
     {"values": 56}, HIST + "Laws: any component == the component.", note="All listed sequences, all arguments and states.")
COUNTER = ["src/counter/Counter.cpp", "src/counter/CounterRegistry.cpp", "src/counter/Timer.cpp", "include/fub/counter/Counter.hpp", "include/fub/counter/Timer.hpp"]
CTWHY = "The statement quantifies over all measurements and histories of timers; no test looks at counters."
prop("V02", "Counters report count, sum, extrema, mean and variance",
     "A counter reports number, sum, minimum, maximum, mean, population variance and standard deviation of the values added since it was created or reset, and zeros if there are none.",
     ["inputs", "histories"], "all values; zero to five of them, before and after a reset", CTWHY, COUNTER[:1], [("Counter", COUNTER[0])], {"counters": 6}, "Laws: code == definition.", note="All values; up to five additions.")
prop("V03", "Timers measure each interval once and for the right counter",
     "A timer adds the time between its creation and its end to its counter exactly once, whether it is destroyed, moved from, moved into another timer, replaced or assigned to itself, also when nested. Timers of the same name in a registry share one counter, and those of different names do not.",
     ["histories"], "all clock readings (arbitrary symbols); the listed sequences of creation, nesting, moves and assignments", CTWHY, COUNTER[1:3] + COUNTER[4:], [("Timer", COUNTER[2]), ("CounterRegistry", COUNTER[1])], {"counters": 11}, "Laws: code == sum of the intervals.", note="All clock readings, listed histories.")
prop("V04", "Counter statistics over all processes are gathered once and at the root",
     "Gathering the statistics of a counter takes part in the same collective operations on every process, whatever the process and its values, and returns a result at the root only: the number of values, minimum of minima, maximum of maxima, and mean and variance of the means of all processes.",
     ["inputs", "schedules"], "all values of this and all other processes; one to four processes, every role", CTWHY, COUNTER[:1], [("Counter::gather_statistics", COUNTER[0])], {"counters": 8}, "MPI is replaced by a stand-in that records every operation in a history. Laws: code == definition.", note="All values, listed numbers of processes.")
prop("B01", "Everything the headers promise is in the library, once",
     "Every function that a header of the library declares or announces as instantiated elsewhere, and every template it declares, is defined by the library, and no external function is defined by two of its sources. Programs that use any of them therefore link.",
     ["programs"], "all functions, member functions, function templates and explicit instantiations declared in the repository's headers as seen by all sources the library is built from",
     "A missing or doubled definition only shows up in a program that uses the function; the tests use few of them.",
     ["CMakeLists.txt", "include/fub/flux_method/FluxMethod.hpp", "src/equations/perfect_gas/HllemMethod_3d.cpp"], [("FluxMethod", "include/fub/flux_method/FluxMethod.hpp")],
     {}, "Query over the type-checked syntax trees of all library sources: declarations and instantiation announcements in headers are matched with definitions by mangled name, templates by canonical declaration.",
     note="All sources compiled unconditionally by CMakeLists.txt (those that need AMReX or SAMRAI are not part of this build).", rules=[rules.link_rule])
prop("B02", "Computations keep no hidden state and read no hidden input",
     "No function of the library keeps mutable state in static or global variables, and none reads a clock, random numbers or the process environment, so that results are determined by the arguments and objects a caller passes. Excepted are the registry of ode solvers, counters and timers, logging and version strings, and the wall clock time that the run loop reports.",
     ["histories", "programs", "schedules"], "all static variables, namespace scope variables and external calls in all sources of the library, their templates and instantiations",
     "A hidden dependence shows only for particular call sequences or environments; the tests run each computation once.",
     ["include/fub/RunSimulation.hpp", "src/counter/Timer.cpp", "src/HyperbolicPatchIntegrator.cpp"], [("RunSimulation", "include/fub/RunSimulation.hpp")],
     {}, "Query over the type-checked syntax trees of all library sources: every variable of static storage duration is constant, and no call reaches a clock, random number generator or environment function, with a list of named exceptions.",
     note="All sources compiled unconditionally by CMakeLists.txt.", rules=[rules.purity_rule])
OPT = ["src/RunSimulation.cpp", "src/ext/ProgramOptions.cpp", "src/ext/Log.cpp", "src/ext/CopyInputFile.cpp", "include/fub/ext/ProgramOptions.hpp", "include/fub/output/OutputAtFrequencyOrInterval.hpp", "include/fub/output/MultipleOutputs.hpp", "include/fub/output/OutputFactory.hpp"]
prop("O01", "Options are found by their name and everything else keeps its default",
     "Every option of the time loop, logging, input file copies and outputs takes the value given under exactly its name, and keeps its documented default if it is not given; durations are in seconds and sections become maps of their own. An output built from options has its own frequencies and intervals, or the common ones where it gives none, and is made by the factory registered for its type; entries without a type or of unknown type produce nothing.",
     ["configurations"], "all values of all options; each option alone, none, and all of them",
     "The statement quantifies over all input files; no test reads options.", OPT, [("RunOptions", OPT[0]), ("GetOptionOr, GetOptions", OPT[4]), ("LogOptions", OPT[2]), ("InputFileOptions", OPT[3]), ("OutputAtFrequencyOrInterval", OPT[5]), ("MultipleOutputs", OPT[6]), ("OutputFactory", OPT[7])],
     {"options": 30}, "Python objects are replaced by a stand-in with one arbitrary content per type. Laws: code == definition.", note="All values; the listed selections of options.")
prop("O02", "Input files are read once and every process gets the same content or failure",
     "Every process obtains exactly the content of the file that the root reads, all processes take part in the same collective operations, and if the file cannot be read then every process fails instead of waiting for the root. A script is run once with the given arguments, its names except those with two leading underscores become the options, and a path that is no regular file is an error; the global minimum of a duration is the minimum over all processes.",
     ["inputs", "fault_sequences", "schedules"], "files of the listed sizes or without access; every role of a process; all values",
     "A process that waits forever needs several processes and a failing file; the tests run on one process.", ["src/ext/Mpi.cpp", "src/ext/ProgramOptions.cpp"], [("ReadAndBroadcastFile, MinAll", "src/ext/Mpi.cpp"), ("ParsePythonScript", "src/ext/ProgramOptions.cpp")],
     {"ranks": 5, "options": 3}, "MPI, files and the python interpreter are replaced by stand-ins that record every operation; throwing is modelled as leaving the function. Laws: what every process sees == definition.", note="Listed file sizes, three processes.")
AMRX = "Exact real arithmetic, two dimensions. AMReX itself is replaced by a stand-in of its documented contract (`witness/mockamrex`: boxes, arrays with ghost cells, tiled iteration, geometry, averages over processes); the sources of the back end, which the build in this sandbox leaves out, are analysed against it."
AWHY = "The AMReX back end is compiled and run by none of the tests that work here, and the statement quantifies over all data, patches, tiles and policies."
prop("A01", "AMReX patches are advanced by their fluxes, cut cells by those of their open faces",
     "On a level of the AMReX back end every cell of a regular patch with both faces among the fluxes changes by dt/dx times the difference of its fluxes, under every execution policy and tiling. Without stabilisation a cut cell changes by the balance of the fluxes through the open parts of its faces and through its wall, divided by its volume fraction; with stabilisation by the fluxes through the unshielded, singly shielded and wall parts, or by plain stabilised fluxes if both faces are equally open. Cells without volume become zero with stabilisation and stay as they are without it, and covered patches and all other cells are left alone.",
     ["inputs", "configurations"], "all data, fluxes, fractions, centroids, time steps and cell widths on grids of one to three patches with zero to two ghost cells, rows longer than a SIMD pack and patches of several tiles, both directions, four execution policies", AWHY,
     ["src/AMReX/TimeIntegrator.cpp", "src/AMReX/cutcell/TimeIntegrator.cpp", "include/fub/AMReX/ViewFArrayBox.hpp"], [("ForwardIntegrator::UpdateConservatively", "src/AMReX/TimeIntegrator.cpp"), ("TimeIntegrator, TimeIntegrator2", "src/AMReX/cutcell/TimeIntegrator.cpp")],
     {"amrcut": 16, "amrgrid": 28}, "Laws: level after the update == formula, cell by cell, everything else unchanged.", note=AMRX)
prop("A02", "Open faces divide into unshielded, singly and doubly shielded parts without rest",
     "The open part of a face is divided by comparison with its neighbouring faces in normal direction: the unshielded part is open at both neighbours, the parts shielded from the left or right are open at the other side only, the doubly shielded part at neither. The four parts add up to the open part, their relative sizes to one, and a closed face has only zeros; this holds in every lane and remainder of the vectorised loop.",
     ["inputs"], "all non-negative open fractions on rows, planes and boxes in two and three dimensions and all directions, with tight and with wider arrays of faces", AWHY,
     ["src/AMReX/cutcell/FillCutCellData.cpp", "include/fub/AMReX/FillCutCellData.hpp"], [("FillCutCellData", "src/AMReX/cutcell/FillCutCellData.cpp")],
     {"amrfill": 16}, "Laws: parts == minima of neighbouring faces; sums == open fraction and one.", note="Exact real arithmetic; this source needs nothing of AMReX.")
prop("A03", "AMReX boundary conditions fill exactly the ghost cells of their side",
     "A transmissive, constant or reflective boundary condition fills the ghost cells beyond its own side of the domain, on every patch that reaches there, and no other cell: with the nearest cell of the domain, the given state, or the mirrored cell with reversed normal momentum. It acts if it is asked for the whole boundary or for its own direction, and transmissive and constant conditions do nothing in a periodic direction. With embedded boundaries constant and reflective conditions leave zeros in ghost cells without volume, and reflective ones also in ghost cells whose mirror cell has none.",
     ["inputs", "configurations"], "all data and states of the perfect gas, both sides and directions, one or two patches, patches away from the boundary, patches of several tiles, periodic directions; corners of reflective boundaries are left open", AWHY,
     ["src/AMReX/boundary_condition/TransmissiveBoundary.cpp", "include/fub/AMReX/boundary_condition/ConstantBoundary.hpp", "include/fub/AMReX/boundary_condition/ReflectiveBoundary.hpp", "src/AMReX/cutcell/boundary_condition/TransmissiveBoundary.cpp", "include/fub/AMReX/cutcell/boundary_condition/ConstantBoundary.hpp", "include/fub/AMReX/cutcell/boundary_condition/ReflectiveBoundary.hpp"], [("TransmissiveBoundary::FillBoundary", "src/AMReX/boundary_condition/TransmissiveBoundary.cpp"), ("ConstantBoundary::FillBoundary", "include/fub/AMReX/boundary_condition/ConstantBoundary.hpp"), ("ReflectiveBoundary::FillBoundary", "include/fub/AMReX/boundary_condition/ReflectiveBoundary.hpp")],
     {"amrgrid": 114}, "Laws: level after FillBoundary == level with exactly the ghost cells of the side replaced.", note=AMRX)
prop("A04", "Averages over a box count every cell once",
     "The mean value of a component and the average state over a box of cells are the sum over the cells of the box that belong to a patch divided by the number of cells, added up over all processes. Ghost cells that repeat cells of other patches and the tiles in which a patch is traversed do not change them, and the inner box of a side has the requested number of cells at that side.",
     ["inputs", "configurations"], "all data on one or two patches with and without ghost cells, patches of several tiles, boxes that reach over patches and beyond them; any contribution of the other processes", AWHY,
     ["src/AMReX/MultiFabUtilities.cpp", "include/fub/AMReX/AverageState.hpp"], [("GetMeanValueInBox, GetInnerBox", "src/AMReX/MultiFabUtilities.cpp"), ("AverageState", "include/fub/AMReX/AverageState.hpp")],
     {"amrgrid": 16}, "Laws: mean == sum over valid cells / number of cells + other processes.", note=AMRX)
prop("A05", "AMReX fluxes and time steps do not depend on patches and tiles",
     "The flux method of a level computes the flux of every face whose whole stencil is among the cells of its patch, ghost cells included, from exactly these cells, the time step and the cell width of the direction, and leaves all other faces and all cells alone. The time step of a level is the least of the time steps of all its cells, ghost cells included. Neither depends on the execution policy or tiling, and the cells and faces in reach of a stencil are those inside of the given boxes.",
     ["inputs", "configurations"], "all linear flux functions with stencils of two and four cells, all data, on one or two patches with zero to three ghost cells and patches of several tiles, both directions, four execution policies", AWHY,
     ["include/fub/AMReX/FluxMethodAdapter.hpp", "src/AMReX/ViewFArrayBox.cpp", "include/fub/AMReX/ViewFArrayBox.hpp", "include/fub/AMReX/ForEachFab.hpp"], [("FluxMethodAdapter", "include/fub/AMReX/FluxMethodAdapter.hpp"), ("GetCellsAndFacesInStencilRange", "src/AMReX/ViewFArrayBox.cpp")],
     {"amrstep": 17, "amrgrid": 4}, "Laws: fluxes == flux function of the stencil of each face; time step == minimum over cells.", note=AMRX)
prop("A06", "AMReX levels are completed cell by cell from their conserved values",
     "Reconstruction of a level replaces the complete state of every cell, ghost cells included, by the one that belongs to the conserved values of the same cell of the source, also if source and destination are the same. With embedded boundaries this happens in regular patches and in the cells of cut patches that have volume; covered patches are left alone. The result does not depend on the execution policy, vectorisation or tiling.",
     ["inputs", "configurations"], "all conserved values of the perfect gas with positive density, all volume fractions, one or two patches of all kinds, rows longer than a SIMD pack, patches of several rows, four execution policies", AWHY,
     ["include/fub/AMReX/Reconstruction.hpp", "include/fub/AMReX/cutcell/Reconstruction.hpp"], [("Reconstruction::CompleteFromCons", "include/fub/AMReX/Reconstruction.hpp"), ("cutcell Reconstruction::CompleteFromCons", "include/fub/AMReX/cutcell/Reconstruction.hpp")],
     {"amrstep": 22}, "Laws: level after reconstruction == scalar reconstruction of each cell.", note=AMRX)
prop("A07", "Ducts of varying area conserve mass and keep gas at rest",
     "In a duct whose cross section varies along the axis, each cell changes by the difference of area times flux over its mean area, plus in its momentum by the change of area times the mean of the pressures at its faces. Mass and energy in the duct change only by what passes its ends, and gas at rest of uniform pressure stays at rest for every shape of the duct. The areas are those at the positions of the faces.",
     ["inputs"], "all shapes of ducts (uninterpreted function of the position), fluxes, pressures, data, time steps and cell widths on one or two patches with zero to two ghost cells, four execution policies", AWHY,
     ["include/fub/AMReX/AxialTimeIntegrator.hpp"], [("AxialTimeIntegrator::UpdateConservatively, RecomputeAxIfNeeded", "include/fub/AMReX/AxialTimeIntegrator.hpp")],
     {"amrstep": 12}, "Laws: update == formula; content changes by the end fluxes; rest == rest.", note=AMRX)
prop("A08", "A refined AMReX hierarchy keeps its content in every time step",
     "A step of a whole AMReX hierarchy, with subcycling or without, changes the content of the hierarchy by nothing but the fluxes through the boundary of the domain: each level passes on the fluxes of its own steps, and at the rim of a refined region coarse cells are changed by the mean of the refined fluxes over all refined faces and steps. Refined-over coarse cells become the mean of the cells that cover them, all other cells change by the balance of their own fluxes, and every level arrives at the same time with its number of steps counted.",
     ["inputs", "configurations"], "all data, cell widths and fluxes (closed domain) on one, two and three levels of one or two patches, refinement by two and four, refined regions inside and at the boundary, Godunov and both Strang splittings, with and without subcycling; with embedded boundaries on levels without cut cells and refinement by two", AWHY,
     ["src/AMReX/IntegratorContext.cpp", "include/fub/AMReX/IntegratorContext.hpp", "src/AMReX/cutcell/IntegratorContext.cpp", "include/fub/AMReX/cutcell/IntegratorContext.hpp", "include/fub/solver/SubcycleFineFirstSolver.hpp", "include/fub/solver/NoSubcycleSolver.hpp", "src/AMReX/TimeIntegrator.cpp"], [("IntegratorContext::AccumulateCoarseFineFluxes, ApplyFluxCorrection, CoarsenConservatively", "src/AMReX/IntegratorContext.cpp"), ("SubcycleFineFirstSolver::AdvanceLevel", "include/fub/solver/SubcycleFineFirstSolver.hpp")],
     {"amrlevel": 16, "amrlevelcut": 14}, "Laws: content after == content before; data, times and steps of each level after the step == formula. The solvers, the splittings, the integrator context and the time integrator are the real ones; the fluxes are free symbols.", note=AMRX)
prop("A09", "AMReX levels fill their ghost cells and follow the regridding",
     "Filling the ghost cells of a level copies the cells of other patches of the level, takes the coarser level where there are none, and leaves cells beyond the domain to the boundary condition of the right level, which a split step calls for its own direction only; no valid cell changes. After regridding the auxiliary data of all new levels has their patches, ghost cells, data, times and steps while coarser levels keep theirs, and a level is regridded at most once per time point and in its first subcycle only.",
     ["inputs", "configurations"], "all data on hierarchies of one to three levels with one or two patches, refinement by two and four, patches that move, appear and vanish; with embedded boundaries refinement by two", AWHY,
     ["src/AMReX/IntegratorContext.cpp", "include/fub/AMReX/IntegratorContext.hpp", "src/AMReX/cutcell/IntegratorContext.cpp", "include/fub/AMReX/cutcell/IntegratorContext.hpp", "include/fub/AMReX/boundary_condition/BoundaryConditionRef.hpp"], [("IntegratorContext::FillGhostLayerTwoLevels, ResetHierarchyConfiguration, PreAdvanceLevel", "src/AMReX/IntegratorContext.cpp"), ("BoundaryConditionRef", "include/fub/AMReX/boundary_condition/BoundaryConditionRef.hpp")],
     {"amrlevel": 33, "amrlevelcut": 31}, "Laws: scratch data after the operation == formula, cell by cell.", note=AMRX)
na("N01", "Schemes converge with their designed order", "For smooth solutions the error of first and second order methods decreases with the first and second power of the cell width.",
   ["inputs"], "all smooth solutions and sequences of grids", "An order of convergence is an asymptotic statement over sequences of grids.", ["include/fub/flux_method", "src/flux_method"], [("FluxMethod", "include/fub/flux_method/FluxMethod.hpp")],
   "A truncation error bound needs Taylor expansions of composed nonlinear operators on all grids; what static analysis can decide is that the documented formulas are evaluated (R04, M02, M03), not their limits.")
na("N02", "Admissible states stay admissible under the stable time step", "A step with a CFL number of at most one half leaves density, pressure, water height and species non-negative for the positivity preserving fluxes.",
   ["inputs"], "all admissible states and stable time steps", "The statement is a nonlinear inequality over all states.", ["include/fub/flux_method", "src/equations"], [("EinfeldtSignalVelocities", "src/equations/perfect_gas/EinfeldtSignalVelocities.hpp")],
   "Needs proofs of polynomial inequalities with square roots and signal speed case distinctions over unbounded reals (a solver's domain), and holds only up to rounding; equalities between programs are what this analysis decides.")
na("N03", "Reaction kinetics are integrated to the requested tolerance", "The reactor's state after a time step deviates from the exact solution of the kinetic equations by no more than the requested tolerances.",
   ["inputs"], "all initial states, mechanisms and time steps", "The error depends on adaptive step control at run time.", ["src/ode_solver/RadauSolver.cpp"], [("RadauSolver", "src/ode_solver/RadauSolver.cpp")],
   "The error of an adaptive implicit integrator is a run-time quantity without a static bound; F04 decides that the right system is integrated over the right interval and that failure is reported.")
na("N04", "Results do not depend on the distribution over processes and patches", "A simulation computes the same solution for every number of processes and threads and every decomposition of the domain into patches.",
   ["schedules", "configurations"], "all decompositions and process counts", "Tests run one process.", ["src/AMReX"], [("GriddingAlgorithm", "src/AMReX/GriddingAlgorithm.cpp")],
   "Ghost cell exchange, load balancing and threads are those of AMReX and SAMRAI, which are not installed here; that updates, fluxes, boundary conditions, averages and reconstructions of this repository's AMReX back end do not depend on patches and tiles is decided by A01, A03 to A06, A08 and A09 against a stand-in, and B02, C01, C02, R08 decide the parts without back end.")
na("N05", "Restart from checkpoints", "A run restarted from a checkpoint continues like the run that wrote it.",
   ["histories", "crash_points"], "all hierarchies, regriddings and checkpoints", "Tests write no checkpoints of hierarchies.", ["src/AMReX"], [("IntegratorContext", "src/AMReX/IntegratorContext.cpp")],
   "Checkpoints are encoded and decoded inside of AMReX and Boost.Serialization and cross the file system; AMReX is not installed here, and a stand-in for its file format would be decided against itself. Conservation across levels is decided by A08.")
na("N06", "The optimal limiter is optimal", "The linear program based limiter returns the slopes of maximal size that are admissible for all neighbours.",
   ["inputs"], "all gradients and neighbourhoods", "Optimality quantifies over all alternatives.", ["src/cutcell_method/AnyMdLimiter.cpp"], [("LinearOptimizationLimiter", "src/cutcell_method/AnyMdLimiter.cpp")],
   "The simplex iteration pivots at positions chosen by input values with no static bound on the number of iterations.")
