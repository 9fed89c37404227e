#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "src/"
P = []


def prop(id, title, statement, over, text, why, files, mech, observe, technique, note, state=None):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                               state=state or [], observe_at=observe, hook_needed=None),
                  technique=technique, note=note))


TESTS = ("The shipped suite runs a fixed list of linear-wave, Alfven-wave, shock-tube and field-loop problems and only looks at "
         "exit codes and warnings; ")
RUN = "state records written by a generic problem generator at the end of (or during) real runs"

prop("C01", "Periodic runs conserve mass, momentum, energy, magnetic flux and scalars",
     "On a uniform Cartesian mesh with periodic boundaries and no source terms, the domain totals of mass, each momentum "
     "component, total energy (adiabatic gas), each magnetic field component (MHD) and each passive scalar do not change, to "
     "round-off, over any number of steps. This holds in 1D, 2D and 3D for every combination of gas, equation of state, "
     "integrator, reconstruction order, Riemann solver, H-correction and first-order flux correction.",
     ["inputs", "configurations", "histories"], "every admissible initial state, grid, Courant number and step count, in every build configuration",
     TESTS + "totals are never compared, and only a few smooth states are run.",
     [S + "integrators/integrate_%dd_%s.c" % (d, i) for d in (1, 2, 3) for i in ("ctu", "vl")] + [S + "bvals_mhd.c", S + "rsolvers/"],
     [("one flux per interface used with opposite signs by the two neighbouring cells", S + "integrators/integrate_*.c final update"),
      ("periodic ghost zones identical to the far side", S + "bvals_mhd.c periodic_*")],
     [RUN], "Hypothesis-generated states run through the real code; invariant over the run (domain totals)",
     "Random search; round-off tolerance 1e-11 of each variable's scale.")

prop("C02", "The magnetic field stays divergence-free",
     "In MHD runs whose initial face-centred field has zero discrete divergence, the discrete divergence in every cell of every "
     "grid stays zero to round-off after every step, for every integrator, reconstruction, flux function, dimensionality, "
     "boundary condition (cells touching a reflecting wall, where the normal field is reset, excepted) and optional physics (Ohmic, Hall and ambipolar diffusion, refinement, cylindrical coordinates, "
     "special relativity, shearing box and orbital advection). The cell-centred field is always the average of the two face-centred values.",
     ["inputs", "configurations", "histories"], "every divergence-free initial field, mesh layout, step count and build configuration with MHD",
     TESTS + "the divergence is printed by one problem generator and never asserted.",
     [S + "integrators/", S + "smr.c", S + "bvals_mhd.c", S + "bvals_shear.c", S + "microphysics/resistivity.c"],
     [("constrained transport: one electric field per edge shared by adjacent faces", S + "integrators/integrate_*d_*.c"),
      ("flux correction and divergence-preserving prolongation of the field at fine/coarse edges", S + "smr.c")],
     [RUN], "generated vector-potential fields; per-cell divergence invariant over the history",
     "Random search; tolerance 1e-11 times field scale over cell size.")

prop("C03", "A restarted run continues exactly as the uninterrupted run",
     "If a run writes a restart file at any step, a new run started from that file (alone, or with parameters overridden on the command line to the same values) "
     "reproduces the original run: the same sequence of times and steps, a bit-identical final state including particles and user data, and the same subsequent numbered output files. "
     "This holds for serial, parallel and mesh-refined runs and with all optional physics.",
     ["histories", "crash_points", "configurations", "inputs"], "every step at which a restart file can be written, every state, mesh layout and build configuration",
     TESTS + "no test restarts a run.",
     [S + "restart.c", S + "main.c", S + "output.c", S + "new_dt.c", S + "par.c"],
     [("binary dump of every evolved array, time, step and dt", S + "restart.c"),
      ("output numbers and times stored back into the parameter database before the dump", S + "output.c data_output")],
     [RUN, "names, contents and numbering of the output files"],
     "generated states, restart points and physics; differential oracle: interrupted+restarted run versus uninterrupted run",
     "Random search over configurations; bitwise comparison of final states.")

prop("C04", "The parallel decomposition does not affect the solution",
     "Running the same problem with any legal division of the domain among processes (including automatic decomposition and uneven divisions) gives the same sequence of time steps and, "
     "to round-off, the same final state as a single-process run. This covers hydrodynamics, MHD, scalars, all boundary conditions, refinement, shearing box, particles and FFT self-gravity (2D and 3D).",
     ["configurations", "schedules", "inputs"], "every decomposition and message arrival order, every state, boundary condition and build configuration",
     "The shipped tests are all serial builds.",
     [S + "init_mesh.c", S + "init_grid.c", S + "bvals_mhd.c", S + "bvals_shear.c", S + "smr.c", S + "particles/bvals_particle.c", S + "fftsrc/"],
     [("ghost-zone exchange by pack/unpack of all variables and face fields", S + "bvals_mhd.c"),
      ("global minimum of the time step", S + "new_dt.c")],
     [RUN], "generated states and decompositions run under MPI; differential oracle against the serial build",
     "Random search, up to 8 processes on one host; message orders are those the MPI library produces.")

prop("C05", "Evolution respects shift, axis, mirror and lower-dimension symmetries",
     "Shifting a periodic initial state by whole cells, cyclically exchanging the coordinate axes of a 3D problem (or swapping them in 2D), mirroring one axis, reversing the sign of the magnetic field, or changing the units, and then evolving, gives the evolved state transformed in the same way, to round-off. "
     "The same holds with optional physics (explicit diffusion, self-gravity, special relativity, shearing box, cylindrical coordinates, cooling) along the axes in which its equations are homogeneous. A state that does not vary along some axes evolves exactly like the corresponding lower-dimensional problem at the same time step, and a uniform state never changes.",
     ["inputs", "configurations"], "every initial state, grid and build configuration (integrators, orders, solvers)",
     TESTS + "no relation between two runs is ever examined.",
     [S + "integrators/", S + "reconstruction/", S + "rsolvers/", S + "bvals_mhd.c", S + "new_dt.c"],
     [("each direction's sweep is the same algorithm with permuted components", S + "integrators/integrate_3d_*.c")],
     [RUN], "metamorphic relations between pairs of runs on generated states",
     "Random search; tolerances cover round-off amplification over the few steps run.")

prop("C06", "Boundary conditions fill ghost zones as documented",
     "After every step each ghost zone holds what its boundary flag says: periodic images, mirror images with the sign of the normal (reflecting) or with conducting-wall field parity reversed, or copies of the last active zone (outflow), for all variables, on every face, edge and corner and for any mix of flags on the six faces. "
     "In hydrodynamics a reflecting wall is equivalent to running the mirror-extended problem, and lets no mass or energy through.",
     ["inputs", "configurations"], "every combination of boundary flags, dimensionality, state and build configuration",
     TESTS + "ghost zones are never inspected, and mixed or conducting boundaries are not used.",
     [S + "bvals_mhd.c"], [("per-face boundary functions chosen from the input flags and applied in x1, x2, x3 order", S + "bvals_mhd.c")],
     [RUN + " including ghost zones"], "generated states and flag mixes; reference model of the ghost zones, and mirrored-domain metamorphic relation",
     "Random search.")

prop("C07", "Riemann solver fluxes are consistent, upwind, symmetric and correct",
     "For every flux function: equal left and right states give the physical flux; flow supersonic to the right (left) gives the left (right) physical flux for upwind solvers; mirroring both states mirrors the flux; passive scalars move with the mass flux from the upwind side; and all results are finite for any pair of physical states. "
     "Solvers that claim to resolve an isolated contact or rotational discontinuity do so exactly, and the exact solver returns the flux of the true self-similar solution, while each approximate solver's flux agrees with its published definition.",
     ["inputs", "configurations"], "every pair of physical states (and longitudinal field), every solver, gas and equation of state, Newtonian and relativistic",
     TESTS + "solvers are only exercised through a handful of fixed shock tubes.",
     [S + "rsolvers/"], [("wave-speed estimates and intermediate states", S + "rsolvers/*.c"), ("eigenvectors of the Roe matrix", S + "rsolvers/esystem_roe.c")],
     ["flux returned for given left/right states"], "generated state pairs through the compiled solvers; algebraic oracles and independent reference implementations",
     "Random search over states spanning several orders of magnitude.")

prop("C08", "Variable conversions and eigensystems are mutually consistent",
     "Converting primitive variables to conserved and back (cell and one-dimensional forms, Newtonian and relativistic) returns the original state for every physical state. "
     "The eigenvectors and eigenvalues used for characteristic reconstruction and for Roe's solver are inverse to each other and diagonalise the Jacobian of the equations, and the reported fast signal speed is the largest characteristic speed.",
     ["inputs", "configurations"], "every physical state, gas, equation of state and adiabatic index",
     TESTS + "no conversion is tested by itself.",
     [S + "convert_var.c", S + "reconstruction/esystem_prim.c", S + "rsolvers/esystem_roe.c"],
     [("closed-form or iterative inversion", S + "convert_var.c"), ("analytic eigen-decompositions", S + "reconstruction/esystem_prim.c, " + S + "rsolvers/esystem_roe.c")],
     ["values returned for given states"], "round-trip and differential oracles (finite-difference Jacobian, numerical eigenvalues) on generated states", "Random search.")

prop("C09", "Reconstruction is exact for constants, monotone and unbiased",
     "Interface states reconstructed from cell averages equal the average for a uniform state, reproduce a linear profile on a uniform grid exactly for second- and third-order methods, and, when variables are reconstructed in primitive form, never leave the range of the neighbouring averages (for the extremum-preserving third-order methods: wherever the data are monotone). "
     "Mirroring the data mirrors the interface states, each result depends only on the documented stencil, and scalars and transverse components are treated alike.",
     ["inputs", "configurations"], "every row of cell states, time step ratio and reconstruction method",
     TESTS + "reconstruction is only exercised inside a full run.",
     [S + "reconstruction/"], [("slope limiting and characteristic projection", S + "reconstruction/lr_states_*.c")],
     ["left and right interface states for a given row of cells"], "generated rows of cells through the compiled reconstruction; algebraic and metamorphic oracles", "Random search.")

prop("C10", "Parameter files are parsed, overridden and written back faithfully",
     "For any input file, each parameter has exactly the value given by its last assignment in its block (whatever the spacing, comments, order or repeated blocks), command-line overrides replace exactly the named value, defaults apply exactly when a value is absent, and integers and reals are read as the C library reads them. "
     "Dumping the parameters and reading the dump back yields the same parameters, also when distributed to other processes, and malformed files are rejected with an error message instead of being misread.",
     ["inputs", "histories"], "every parameter file text and sequence of get/set/override operations",
     TESTS + "all inputs come from one file style.",
     [S + "par.c", S + "main.c"], [("linked list of blocks and name/value/comment entries", S + "par.c")],
     ["values seen by the program; text of the parameter dump"], "generated files and operation sequences; model-based oracle and dump round-trip", "Random search.")

prop("C11", "Output files hold exactly the simulation's state",
     "Every data file written (binary, VTK, tabular conserved and primitive dumps, single-variable tables, VTK, PGM and PPM images, histograms, and history sums) contains the values of the requested variable, region, slice or average of the current state, with correct coordinates, time, ordering and headers, to the precision of the format. "
     "This holds on any grid, for every expression, with or without ghost zones, at every refinement level and for any mix of outputs in one run.",
     ["inputs", "configurations"], "every state, grid, output block definition and mix of outputs",
     "No existing test opens an output file except the final error norms.",
     [S + "output.c"] + [S + x for x in ("dump_binary.c", "dump_vtk.c", "dump_tab.c", "dump_history.c", "output_tab.c", "output_vtk.c", "output_pdf.c", "output_pgm.c", "output_ppm.c")],
     [("variable expressions and range reduction", S + "output.c"), ("format writers", S + "dump_*.c, " + S + "output_*.c")],
     ["bytes of the files written"], "generated states and output blocks; independent readers compared with the exact state record", "Random search.")

prop("C12", "Outputs appear on schedule, numbered consecutively, and runs stop when told",
     "Each output block produces one file at the start, one at the first step at or after each multiple of its interval (at most one per step, also when the interval is shorter than the step), and a final one at the end, numbered consecutively with no gaps, duplicates or overwrites, each labelled with the time of the state it holds. "
     "A run stops at exactly the time limit or the cycle limit, whichever comes first, or after completing the current step when asked to terminate by a signal, in every case leaving complete final outputs.",
     ["histories", "inputs", "fault_sequences"], "every set of output intervals, limits, restart points and signal delivery steps",
     TESTS + "the number and times of files are not examined.",
     [S + "output.c", S + "main.c", S + "ath_signal.c", S + "ath_files.c"], [("next-output time and number kept per output", S + "output.c data_output"), ("signal flag checked once per step", S + "ath_signal.c")],
     ["file names and times in the run directory"], "generated schedules and signals; executable model of the schedule", "Random search.")

prop("C13", "The time step obeys the stability limit",
     "Every time step equals the Courant number times the smallest cell crossing time of the fastest signal (flow plus fast speed, either direction, particles included) over all cells and levels, further limited by the diffusion limit when explicit diffusion is on, by twice the previous step, and so that the run ends exactly at the time limit. "
     "It therefore does not depend on the signs of velocities or magnetic fields.",
     ["inputs", "configurations", "histories"], "every state, grid and build configuration",
     TESTS + "the step size is not examined.",
     [S + "new_dt.c", S + "microphysics/new_dt_diff.c"], [("maximum inverse crossing time over all grids and processes", S + "new_dt.c")],
     ["sequence of times and time steps"], "generated states; independent reference computation of the step, and sign-flip metamorphic relation",
     "Random search.")

prop("C14", "Static mesh refinement keeps the levels consistent and conservative",
     "With any legal arrangement of refined regions, each coarse cell under a refined region holds the average of the fine cells after every step, fluxes and electric fields agree across level boundaries so that composite totals are conserved on periodic domains and the field stays divergence-free on every level, and a uniform state stays uniform. "
     "Fine ghost zones are filled conservatively from the coarse level, linearly varying data included, and illegal arrangements are rejected.",
     ["inputs", "configurations"], "every legal nesting of levels and domains, state, dimensionality and decomposition",
     "The shipped tests contain no refined run.",
     [S + "smr.c", S + "init_mesh.c", S + "init_grid.c", S + "bvals_mhd.c"], [("restriction, flux and EMF correction, prolongation", S + "smr.c"), ("overlap tables between parent and child grids", S + "init_grid.c")],
     [RUN + " on every level"], "generated mesh hierarchies and states; conservation, restriction, divergence and uniformity invariants", "Random search.")

prop("C15", "Self-gravity solves the Poisson equation for the current density",
     "The potential satisfies the discrete Poisson equation for the current gas density, with mean subtracted, for periodic boundaries, and equals the solution of the discrete equation on the doubled (zero-padded) box for the open-boundary solver and the disk Green's-function solution for the disk solver, after initialisation and after every step; in the shearing box it converges with resolution to the solution with the instantaneous sheared periodicity, and the multigrid solver's repeated V-cycles approach the solution with monopole boundary values. "
     "The gravitational force conserves total momentum (periodic case) and does not depend on translations or axis exchange.",
     ["inputs", "configurations"], "every density field, grid shape, solver and decomposition",
     "No existing test builds self-gravity.",
     [S + "gravity/", S + "integrators/"], [("FFT or multigrid solution of the discrete Laplacian", S + "gravity/selfg_*.c"), ("source terms in conservative form", S + "integrators, " + S + "gravity/selfg.c")],
     [RUN + " including the potential"], "generated density fields; residual of the discrete equation, direct-sum reference, momentum invariant", "Random search.")

prop("C16", "The FFT layer computes discrete Fourier transforms on any grid",
     "Forward and backward 2D and 3D transforms of any complex data on any grid size and process decomposition equal the mathematical discrete Fourier transform, with the documented ordering and normalisation, and forward followed by backward returns the data.",
     ["inputs", "configurations"], "every grid shape, data and decomposition", "No existing test uses the FFT layer.",
     [S + "fftsrc/"], [("data remapping between slab/pencil decompositions around FFTW", S + "fftsrc/")], ["transformed arrays"],
     "generated arrays; differential oracle against numpy's FFT and round-trip", "Random search.")

prop("C17", "Particles are never lost, duplicated or misplaced, and couple consistently",
     "On periodic domains (the shearing box included) the set of particle identities never changes and every particle stays inside the domain on the process that owns its cell; reflected particles are mirrored, and outflowing ones are followed into the ghost zones and then removed, as the flags say. "
     "With the CTU integrator free particles move uniformly (on epicycles in the shearing box), particles in a uniform gas relax to its velocity on the stopping time given by the chosen drag law, whichever particle integrator is used within its range, and in a smooth gas the acceleration is the drag toward the interpolated gas velocity, with interpolation weights that sum to one and reproduce linear fields. With feedback the combined momentum of gas and particles is conserved to round-off and their combined energy budget to truncation error; binned particle densities and momenta equal the weighted deposit of the particles.",
     ["inputs", "configurations", "histories"], "every particle set, gas state, grid, interpolation, integrator and stopping-time choice",
     "No existing test uses particles.",
     [S + "particles/"], [("boundary exchange and deletion", S + "particles/bvals_particle.c"), ("weights and feedback deposit", S + "particles/utils_particle.c, " + S + "particles/exchange.c")],
     [RUN + " including particles"], "generated particle sets; set-identity, momentum and analytic-trajectory oracles", "Random search.")

prop("C18", "The shearing box is shear-periodic, conservative and epicyclic",
     "In the shearing box, with and without orbital advection, ghost zones across the radial boundary are the sheared images of the far side at any boundary offset, total mass and net vertical and radial magnetic flux are conserved to round-off in 3D (in the 2D radial-vertical box for isothermal gas), the field stays divergence-free, total vertical momentum is conserved and total horizontal momentum changes only through the Coriolis and tidal forces (3D), and orbital advection carries gas, scalars and field with the background over whole and fractional numbers of cells. The background shear flow with uniform density is an exact equilibrium and uniform horizontal velocity perturbations perform epicyclic oscillations at the analytic frequency (to truncation error when the energy equation is solved without orbital advection). "
     "The rate of change of any smooth shear-periodic state converges with resolution to the shearing-box equations, with and without orbital advection.",
     ["inputs", "configurations"], "every perturbation, box size, shear parameter, rotation rate, start time and gas",
     "No existing test builds the shearing box.",
     [S + "bvals_shear.c", S + "integrators/"], [("conservative remap by a fractional number of cells", S + "bvals_shear.c"), ("flux remap at radial boundaries", S + "bvals_shear.c RemapFlx"), ("semi-implicit Coriolis and tidal terms", S + "integrators/")],
     [RUN], "generated boxes and perturbations; conservation, remap reference model and analytic epicycle", "Random search.")

prop("C19", "Diffusion is conservative, dissipative and has the right coefficients",
     "Viscosity (hydrodynamics), isotropic and anisotropic thermal conduction, and Ohmic, Hall and ambipolar resistivity, explicit or (except Hall) super-time-stepped, conserve mass, momentum, total energy and net magnetic flux on periodic domains and leave uniform states unchanged; isotropic heat never flows into a local temperature maximum or out of a minimum. "
     "The rate of change of any smooth state converges with resolution to the diffusion equations with the given coefficients, in every direction and dimensionality, and small perturbations follow the linearised equations over many steps.",
     ["inputs", "configurations"], "every state, coefficient, direction and dimensionality", "No existing test builds explicit diffusion.",
     [S + "microphysics/"], [("conservative diffusive fluxes", S + "microphysics/{conduction,viscosity,resistivity}.c"), ("stability-limited step or super-time-stepping", S + "new_dt.c")],
     [RUN], "generated states; conservation invariants, analytic decay, anisotropy and symmetry relations", "Random search.")

prop("C20", "Cylindrical runs obey the cylindrical equations, conservation and symmetry",
     "In cylindrical coordinates the interior update conserves volume-weighted totals of mass, scalars, vertical momentum, energy (without an imposed potential) and angular momentum to round-off: a change of the state away from the radial boundaries never alters these totals' rate of change. A uniform gas at rest (with uniform vertical field) stays exactly so, and the divergence of the field stays zero away from reflecting radial walls. "
     "The rate of change of any smooth state converges to the cylindrical equations (imposed potential, rotating frame and orbital advection included), rotation in balance with a potential stays in equilibrium to truncation error, the solution is unchanged by rotation about the axis and by mirroring, and at large radius it equals the Cartesian solution.",
     ["inputs", "configurations"], "every state, radial range, dimensionality and build configuration", "No existing test builds cylindrical coordinates.",
     [S + "integrators/", S + "reconstruction/", S + "cc_pos.c", S + "bvals_shear.c"], [("geometric areas and volumes in the flux differences, angular-momentum-conserving form", S + "integrators/integrate_*d_*.c")],
     [RUN], "generated states; weighted-total invariants, analytic right-hand side at two resolutions, equilibrium, rotation, mirror and large-radius metamorphic relations", "Random search.")

prop("C21", "Special relativistic runs stay physical, conservative and covariant",
     "Relativistic runs on periodic domains conserve mass, momentum and energy to round-off, keep speeds below light and density and pressure positive, recover primitive variables consistent with the conserved ones, and keep the divergence of the field zero. The rate of change of any smooth state converges with resolution to the relativistic equations. "
     "Runs obey the same translation, axis-exchange, mirror and lower-dimension symmetries as Newtonian runs and reduce to them for flow and signal speeds of at most a few percent of the speed of light.",
     ["inputs", "configurations"], "every physical relativistic state and solver", "No existing test builds special relativity.",
     [S + "integrators/integrate_%dd_vl_sr.c" % d for d in (1, 2, 3)] + [S + "convert_var.c", S + "rsolvers/hllc_sr.c", S + "rsolvers/hlle_sr.c", S + "rsolvers/hlld_sr.c", S + "rsolvers/exact_sr.c"],
     [("iterative primitive recovery with fall-backs", S + "convert_var.c")], [RUN],
     "generated relativistic states; conservation, positivity and metamorphic relations", "Random search.")

prop("C22", "Passive scalars ride with the gas and never influence it",
     "A scalar with uniform concentration keeps that concentration to round-off (except in shearing boxes, whose radial flux correction covers mass only); adding, removing or changing scalars never changes the gas solution; identical initial scalars stay identical; the evolution is linear in each scalar's overall factor; and concentrations stay within the initial range for the one-dimensional first-order CTU scheme. "
     "Every scalar index behaves alike.",
     ["inputs", "configurations"], "every state, scalar field, number of scalars and build configuration", TESTS + "one scalar is compiled in and its value ignored.",
     [S + "integrators/", S + "rsolvers/", S + "reconstruction/"], [("scalar flux is mass flux times upwind concentration", S + "rsolvers/*.c")], [RUN],
     "generated states; metamorphic relations between runs with different scalars", "Random search.")

prop("C23", "Join tools reassemble per-process files into the single-process file",
     "Joining the per-process VTK, binary or particle-list files of a parallel run gives a file whose header and data equal those of the single-process run of the same problem, for any decomposition and any number of files; sorting a particle list only reorders it. Binary pieces whose headers disagree are refused, and the local density listed for a particle is the interpolated deposit of all particles around it, whatever the decomposition.",
     ["inputs", "configurations"], "every grid, decomposition and set of files", "No existing test runs the tools.",
     ["vis/vtk/join_vtk.c", "vis/matlab/join_bin/join_bin.c", "vis/particle/join_lis.c", "vis/particle/sort_lis.c"],
     [("block placement from each file's origin and dimensions", "vis/vtk/join_vtk.c")], ["bytes of the joined file"],
     "generated fields and decompositions; differential oracle: joined file versus the undivided data", "Random search.")

prop("C24", "Bad input is rejected cleanly and good input never corrupts memory",
     "Parameter files with missing required parameters, lines that are not 'name = value', unknown output formats, boundary flags out of range, empty or inverted domains or illegal refinement or process layouts, command lines naming unknown parameters or lacking an option's value, and truncated, relabelled or foreign restart files end the program with an error message and nonzero status before the first step; no damaged parameter file or restart file makes it crash or hang. "
     "No legal run, with any combination and number of outputs, restarts and physics, reads or writes outside its allocations or uses undefined values.",
     ["inputs", "fault_sequences", "configurations"], "every input file mutation, restart file corruption and legal configuration", TESTS + "no invalid input is tried and no sanitizer is used.",
     [S + "par.c", S + "init_mesh.c", S + "output.c", S + "restart.c", S + "utils.c"], [("explicit checks ending in the fatal-error routine", S + "init_mesh.c, " + S + "output.c, " + S + "bvals_mhd.c")],
     ["exit status, error message, sanitizer reports"], "generated and mutated inputs on address- and undefined-behaviour-sanitized builds", "Random search; memory errors are detected by the sanitizers' rules.")

prop("C25", "Cooling changes only thermal energy, at the prescribed rate",
     "Cooling source terms (CTU integrators, Koyama-Inutsuka function) remove thermal energy at the rate given by the cooling function and change neither density, momentum nor magnetic field except through the pressure; the operator-split solver (single-level meshes without scalars, at most a tenth temperature change per step) keeps temperature positive, drives gas toward thermal equilibrium from either side without overshooting it, and treats every cell independently of its neighbours and of the grid.",
     ["inputs", "configurations"], "every density, temperature, step size and grid", "No existing test builds cooling.",
     [S + "microphysics/cool.c", S + "microphysics/cool_solver.c", S + "microphysics/integrate_cooling.c", S + "integrators/"],
     [("implicit solve for the temperature per cell", S + "microphysics/cool_solver.c"), ("half-step and full-step source terms", S + "integrators/")], [RUN],
     "generated states; reference ODE integration and equilibrium invariants", "Random search.")

prop("C26", "Static gravity exchanges energy conservatively and accelerates correctly",
     "With a fixed external potential on a periodic domain, mass is conserved to round-off and total energy including potential energy is conserved to round-off, momentum changes only by the work of the potential gradient, adding a constant to the potential changes nothing, and a uniform gravity accelerates uniform gas at exactly the given rate. "
     "A potential constant along an axis never accelerates gas along it.",
     ["inputs", "configurations"], "every potential, state and build configuration", "No existing test has gravity.",
     [S + "integrators/"], [("energy source from mass fluxes times potential differences", S + "integrators/integrate_*.c")], [RUN],
     "generated potentials and states; conservation invariant and analytic free fall", "Random search.")

prop("C27", "Solutions converge to the equations, exact waves and exact shock tubes",
     "The rate of change of any smooth state converges with resolution to the right-hand side of the hydrodynamic or MHD equations for every variable. Small-amplitude waves of every family, in any direction and on any background, propagate at the analytic speed with errors that are small and fall with resolution, and one-dimensional Riemann problems along each axis converge to the exact self-similar solution. "
     "This holds for both integrators and every reconstruction and solver.",
     ["inputs", "configurations"], "every smooth state, background, wave family, direction, Riemann problem and build configuration",
     TESTS + "a few fixed waves and shocks are run and the errors are not checked against a bound.",
     [S + "integrators/", S + "reconstruction/", S + "rsolvers/"], [("second-order directionally unsplit update", S + "integrators/")], [RUN],
     "generated smooth states, waves and Riemann problems; analytic right-hand sides, eigenmodes and independently computed exact solutions at two or three resolutions", "Random search at low resolution.")

if __name__ == "__main__":
    import sys
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps({k: v for k, v in p.items() if k not in ("technique", "note")}) + "\n")
    checks, na = [], []
    for p in P:
        if os.path.exists(os.path.join(HERE, "checks", p["id"] + ".py")):
            checks.append(dict(property=p["id"], quick_cmd="python3-vt check.py %s quick" % p["id"],
                               thorough_cmd="python3-vt check.py %s thorough" % p["id"],
                               technique="property-based testing: " + p["technique"], level="exploration",
                               level_note=p["note"], evidence_file="evidence/%s.json" % p["id"]))
        else:
            na.append(dict(property=p["id"], reason="check not built yet"))
    m = dict(version=1, setup_cmd="python3-vt setup.py", checks=checks, not_applicable=na)
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")
