"""The properties: one entry each; gen.py writes properties.jsonl and MANIFEST.json from here."""
TECH = "property-based testing"

def P(id, title, statement, over, text, why, files, mech, note, technique, observe=None):
    return dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                note=note, technique=technique, observe=observe)

WHY0 = "The existing tests only look at six physical constants; nothing of this code is even compiled by them. "

PROPS = [
P("C01", "Grid arithmetic and stitching of neighbouring domains",
  "Whole-grid operations act on every inner cell and leave guard cells alone, and guard cells are reached only through the documented overlap operations. "
  "After stitching, the two copies of every cell that neighbouring domains share (radial, axial and diagonal neighbours) both hold the sum of what the domains held, so that the currents and fields of a decomposed area equal those of the undivided one. "
  "Nothing else changes.",
  ["inputs", "histories", "configurations"], "every sequence of grid operations, every pair of neighbours, every decomposition into domains and every content",
  WHY0 + "Overlap errors show only for particular contents, sizes (non-square) and neighbours (anti-diagonal).",
  ["include/algo/grid.hpp", "include/algo/grid3d.hpp", "src/SMB.cpp"],
  [("Grid::overlay_x, overlay_y, overlay_xy", "include/algo/grid.hpp"), ("SMB current_overlay, field_e_overlay, field_h_overlay", "src/SMB.cpp")],
  "Sequences of up to 40 operations against an array model; stitching against a global array with exact integer contents, up to 4x4 domains.",
  "model-based stateful property testing against an array model; metamorphic comparison with a global array"),
P("C02", "Particle pushers integrate the Lorentz force",
  "One push changes each macroparticle's momentum by the Lorentz force of the fields at its position over one time step, as the selected scheme (classical, relativistic or adaptive Boris, Vay, Higuera-Cary) defines it, for every specie. "
  "A magnetic field alone never changes a particle's energy, no speed reaches the light velocity under a relativistic scheme, and a rest particle without fields stays at rest.",
  ["inputs", "histories", "configurations"], "every pusher, specie charge and mass, field strength and direction, and velocity from rest to ultra-relativistic",
  WHY0 + "A wrong sign or factor in one component of a rotation shows only for some directions and strengths of field.",
  ["src/pusher/pusherBoris.cpp", "src/pusher/pusherVay.cpp", "src/pusher/pusherHC.cpp", "include/math/vector3d.hpp", "src/phys/rel.cpp"],
  [("Pusher operator()", "src/pusher/*.cpp"), ("lorenz_factor", "src/phys/rel.cpp")],
  "Every pusher against an independent long-double solution of its implicit definition; gyration over up to 200 steps.",
  "differential property testing against an independent long-double reference of each scheme"),
P("C03", "Fields seen by a particle are those of its own place",
  "The electric and magnetic field a particle feels is the volume-weighted combination of the four staggered grid nodes around it, component by component: each component comes only from its own grid and its own nodes, axially linear, radially by ring overlap, with one volume per node, linear in the fields and independent of how the area is split into domains. "
  "Nodes not next to the particle have no influence.",
  ["inputs", "configurations"], "every position in every domain, cell sizes and field contents",
  WHY0 + "An index slip in one of the 24 node terms shows only at particular positions relative to the staggered nodes.",
  ["include/maxwellSolver.hpp"], [("get_field_e, get_field_h, get_field_dummy", "include/maxwellSolver.hpp")],
  "Measured response to every node of a 4x4 neighbourhood at random positions and offsets; bounds derived from ring overlap.",
  "property testing of the measured linear response against an analytic volume-overlap oracle"),
P("C04", "Density maps account for every particle",
  "The density map of a specie, multiplied by the cell volumes, adds up to the sum of its macroparticles' weights, wherever they are and whatever the map held before. "
  "Each macroparticle is shared among the four nodes around it by ring overlap radially and linearly along the axis.",
  ["inputs", "configurations", "histories"], "every set of macroparticles in every domain, including near the axis and at domain edges, repeated calls",
  WHY0, ["include/algo/weighter.hpp", "src/specieP.cpp"], [("weight_cylindrical", "include/algo/weighter.hpp"), ("calc_density", "src/specieP.cpp")],
  "Per-node comparison with an exact ring-overlap oracle, guard cells included.", "property testing against an analytic oracle and a conservation law"),
P("C05", "Deposited current satisfies charge continuity",
  "For every flight of less than a cell, the deposited radial and axial current carries exactly the charge that leaves each node, for both current schemes, and the azimuthal current adds up to charge times azimuthal velocity. "
  "Contributions of particles and species add up, no current is put below the axis, and longer flights are reported as errors rather than deposited silently (Villasenor-Buneman scheme).",
  ["inputs", "histories", "configurations"], "every flight: within a cell, over one or two edges, through exact corners, purely radial or axial, any weight and specie",
  WHY0 + "Each of the edge-crossing cases is a separate branch reached only by particular flights.",
  ["src/current/currentVB.cpp", "src/current/currentZigZag.cpp"],
  [("simple_current_distribution and the case analysis of crossings", "src/current/currentVB.cpp"), ("ZigZag relay point", "src/current/currentZigZag.cpp")],
  "Per-node continuity and path-integral reference for 1..12 simultaneous flights.", "property testing against the continuity equation and a path-integral reference"),
P("C06", "Maxwell solver advances the fields by Ampere's and Faraday's laws",
  "Each electric update equals the discrete Ampere law on the staggered cylindrical grid (curl of H, deposited current, conductivity of the absorbing layers) and each magnetic update the discrete Faraday law, at every node of every domain including the axis, with the half-step magnetic field in between. "
  "Conducting walls stay conducting, the area outside absorbing layers is loss-free, and no guard cell keeps stale data.",
  ["inputs", "histories", "configurations"], "every field content, current, domain position relative to axis and walls, cell size, layer thickness and conductivity, over several steps",
  WHY0 + "Boundary rows, the axis and the layer corners are separate branches reached only at particular nodes.",
  ["src/maxwellSolver/maxwellSolverYee.cpp"], [("calc_field_e, calc_field_h, set_pml", "src/maxwellSolver/maxwellSolverYee.cpp")],
  "Node-by-node comparison with a long-double reference of the two laws over 1..4 steps, random guard contents.",
  "differential property testing against an independent long-double reference solver"),
P("C07", "Splitting the area into domains does not change the physics",
  "A simulation of given macroparticles and fields proceeds the same way whether the area is handled as one domain or split into any permitted number of domains: the same particle trajectories, currents and electric and magnetic fields at every node after every step, with or without absorbing layers.",
  ["inputs", "histories", "configurations"], "every decomposition, particle set, initial field and number of steps",
  WHY0 + "Errors appear only when particles or waves pass a domain border or its corner at a particular step.",
  ["src/SMB.cpp", "src/domain.cpp", "src/maxwellSolver/maxwellSolverYee.cpp"], [("solve_maxvell, solve_current, advance_particles", "src/SMB.cpp")],
  "2..64 domains against one, up to 300 particles and 30 full steps with random initial fields.", "metamorphic property testing: divided against undivided area"),
P("C08", "Particles move between domains without loss, copies or changes",
  "After every exchange each macroparticle that is inside the area is kept by exactly one domain, the one that contains its position, within its own specie and with its position, velocity, weight and identity unchanged; only particles outside the whole area disappear.",
  ["inputs", "histories", "configurations"], "every number of domains and every set of particles inside or up to a cell beyond a domain's border, over repeated exchanges",
  WHY0 + "Each of the eight directions and the area's walls are separate branches.",
  ["src/SMB.cpp"], [("particles_runaway_collector", "src/SMB.cpp")],
  "1..64 domains, up to 500 marked particles, 1..3 rounds.", "stateful property testing against a reference placement model"),
P("C09", "Free particles fly straight and are mirrored by the walls",
  "Without fields a macroparticle moves on a straight line in space: its new distance from the axis, its axial position and its velocity in cylindrical components are those of uniform motion, also close to and over the axis. "
  "Walls half a cell inside the area reflect particles specularly; speed is kept, no particle is lost between closed walls, and the previous position and cell number are up to date.",
  ["inputs", "histories", "configurations"], "every start position, velocity up to near light velocity, and time step below a cell per step",
  WHY0 + "Sign errors of the rotation or of a reflection need particular directions and positions.",
  ["src/SMB.cpp", "src/specieP.cpp", "src/domain.cpp"], [("mover_cylindrical, back_position_to_rz, back_velocity_to_rz, reflect", "src/specieP.cpp"), ("advance_particles", "src/SMB.cpp")],
  "Closed-form long-double oracle over 1..12 steps.", "property testing against a closed-form kinematic oracle"),
P("C10", "Plasma filling puts the configured amount of matter into the area",
  "After distribution every specie has its configured number of macroparticles, aligned to the grid where the placement needs it. Together they carry the configured density, including its linear gradient from left to right, "
  "all lie inside the filled area with positive weights, and adjacent domains leave neither gaps nor overlaps, for every kind of placement.",
  ["inputs", "configurations"], "every density gradient, number of macroparticles, number and shape of domains and every placement kind",
  WHY0, ["src/specieP.cpp", "src/SMB.cpp"], [("fullyfill_spatial_distribution, linear_spatial_distribution, rectangular and centered placements", "src/specieP.cpp"), ("distribute", "src/SMB.cpp")],
  "Four builds, one per placement; particle counts, weight sums per domain, limits, density profile by statistical comparison.", "property testing against an analytic density profile"),
P("C11", "Initial velocities follow the configured temperature",
  "Newly filled particles have the velocity distribution the configuration asks for: thermal species follow the Maxwell (relativistic: Maxwell-Juettner) distribution of their temperature and mass, isotropically, rectangular and eigen distributions keep the configured energy, and nothing starts faster than light.",
  ["inputs", "configurations"], "every temperature from zero to relativistic, every mass, every seed and every velocity profile",
  WHY0 + "A distribution is a statement about all seeds and temperatures.", ["src/specieP.cpp", "src/math/maxwellJuettner.cpp", "src/math/rand.cpp"],
  [("thermal_velocity_distribution, rectangular_velocity_distribution, eigen_velocity_distribution", "src/specieP.cpp"), ("maxwell_juettner sampling", "src/math/maxwellJuettner.cpp")],
  "Kolmogorov-Smirnov comparison (threshold about 1e-13) of generated temperatures with numerically integrated distributions.", "statistical property testing against numerically integrated distributions"),
P("C12", "Beams are injected as configured",
  "Between its start and the end of its last bunch a beam injects its configured number of macroparticles per bunch, which together carry the configured charge density over the bunch length and beam cross-section, at the configured velocity, at the left wall and within the beam radius, "
  "in every decomposition of the area; between and after the bunches nothing is injected.",
  ["inputs", "histories", "configurations"], "every beam radius, density, velocity, bunch number, length and gap, start time, time step and decomposition",
  WHY0, ["src/beamP.cpp", "src/SMB.cpp"], [("BeamP::inject", "src/beamP.cpp"), ("inject_beam", "src/SMB.cpp")],
  "Whole injection histories against the analytic bunch schedule and cross-section.", "stateful property testing against an analytic injection schedule"),
P("C13", "Configurations are read faithfully and impossible ones are refused",
  "Every value of a configuration file reaches the simulation unchanged: sizes, grid and domain numbers, times (the simulation begins at the start time), species, beams, probes, absorbing layers, with relative beam quantities and particle counts resolved, names given distinct identifiers, and the configuration stored with the data equal to the one that was read. "
  "A configuration that breaks a documented numerical or geometrical limit (divisibility into domains, probe placement and schedule, cell size, time step, Debye length, layer thickness) is reported as an error before simulation, and a sound one is not.",
  ["inputs", "configurations"], "every configuration file: numbers of species, beams, probes, domains and all their values",
  WHY0 + "Limits are thresholds over combined values; a swapped or rounded field shows only for particular values.",
  ["src/cfg.cpp", "src/phys/plasma.cpp"], [("Cfg::Cfg, init_* and cfg2value", "src/cfg.cpp"), ("Cfg::method_limitations_check, init_geometry", "src/cfg.cpp")],
  "Generated configurations with 1..4 species, 0..3 beams and 0..6 probes against the generator's own values; limits against independent formulas, 2 % around a limit left out.",
  "model-based property testing of generated configuration files"),
P("C14", "Output frames hold the fields of their step, complete and on schedule",
  "Every probe writes one frame per schedule, at steps 0, schedule, twice the schedule and so on, without skipping or repeating one. Each frame of a field probe (rectangle, column, row or dot) holds exactly the values of its component at its cells at that step, whichever domains own them. "
  "Probes do not disturb each other, an unknown probe does not stop the simulation, and the metadata describes the run.",
  ["inputs", "histories", "configurations"], "every set of probes, schedule, time step, duration and decomposition",
  WHY0 + "A lost or shifted frame depends on rounding of the summed up time and on borders of domains.",
  ["src/outController.cpp", "src/outWriter.cpp", "src/outEngine/outEngineHDF5.cpp"], [("OutController::operator(), init_datasets", "src/outController.cpp"), ("OutWriter::operator()", "src/outWriter.cpp"), ("write_rec, write_row, write_col, write_dot", "src/outEngine/outEngineHDF5.cpp")],
  "An in-memory stand-in for the HDF5 library records all frames; up to 64 domains, 7 probes, 1500 steps of the accumulating clock.",
  "model-based property testing of recorded output against the global fields"),
P("C15", "Output maps of density, momentum, energy and temperature are right",
  "Maps of density, momentum, energy and temperature of a specie, as written to the output, equal the weight-averaged quantity of the specie's macroparticles at every node of the undivided area, however the area is split into domains, whatever other probes are written in the same step or were written before.",
  ["inputs", "histories", "configurations"], "every particle set, decomposition, probe set and order of probes",
  WHY0 + "Errors occur only at nodes on borders of domains or for particular sequences of probes.",
  ["src/SMB.cpp", "src/specieP.cpp", "src/outController.cpp", "src/domain.cpp"], [("calc_momentum, calc_energy, calc_temperature", "src/specieP.cpp"), ("overlay of maps", "src/SMB.cpp"), ("OutController::operator()", "src/outController.cpp")],
  "Every frame against a long-double average over all particles; up to 64 domains, several hundred particles, 8 probes, 4 changing steps.",
  "metamorphic and reference-model property testing of recorded output"),
P("C16", "Coulomb collisions conserve and scatter as their scheme says",
  "A collision changes only velocities. A pair of equal weights keeps its momentum and energy, whatever the masses, velocities, densities and time step; unequal weights are deflected so that the totals are kept on average (TA77S restores the totals of every cell). Deflection angles follow the distribution of the scheme. "
  "In every cell of every domain every electron and ion that has a partner takes part, its partner is drawn anew at random in each cell and step, other species are left alone, and the result does not depend on the split into domains. No velocity becomes undefined or faster than light.",
  ["inputs", "configurations", "histories"], "every pair and every population of cells, for each of the three schemes",
  WHY0 + "Collisions are random, and the special cases (motion along the axis, opposite momenta, odd numbers, empty cells) need particular populations.",
  ["src/collisions.cpp", "src/collisions/collisionsTA77S.cpp", "src/collisions/collisionsSK98.cpp", "src/collisions/collisionsP12.cpp", "src/phys/plasma.cpp"],
  [("collide_single, collide, correct_velocities", "src/collisions/collisionsTA77S.cpp"), ("collide_single", "src/collisions/collisionsP12.cpp"), ("sort_to_cells, random_sort, collect_weighted_params_tot_grid", "src/collisions.cpp")],
  "Conservation to 1e-8..1e-10 of the sums of absolute values.",
  "invariants, statistical distribution tests (Kolmogorov-Smirnov) and metamorphic placement over generated pairs and cells"),
P("C17", "External fields act on every particle as configured",
  "The external electric and magnetic fields chosen by name in the configuration act on every macroparticle in addition to the fields of the simulation: a constant field along z is felt with its amplitude everywhere away from the walls, in every domain and next to every border of domains, with both fields present or only one, and a particle moves as if these fields were a part of the solver's. "
  "External fields change nothing in the fields of the simulation. The profile ``none'' has no effect; an unknown profile is refused.",
  ["inputs", "configurations"], "every profile, amplitude, decomposition, position and pusher",
  WHY0 + "A field that is lost by a border of domains or for a particular combination of profiles shows up in a few particles only.",
  ["src/maxwellSolver/externalFields.cpp", "src/SMB.cpp", "src/pusher/pusherBoris.cpp", "src/pusher/pusherVay.cpp", "src/pusher/pusherHC.cpp"],
  [("ExternalFields constructor, set_el_field_homogenous_z, set_magn_field_homogenous_z", "src/maxwellSolver/externalFields.cpp"), ("apply_external_fields", "src/domain.cpp")],
  "Only ``const_z'' has an effect in the code; other known profiles are accepted without one. Within two cells of a wall only sign and bound are checked.",
  "metamorphic property testing: external field against the same field inside the solver, split against undivided area"),
P("C18", "Physical formulas and random numbers are right over their whole range",
  "Lorentz factor, momentum and kinetic energy agree with relativity for every velocity below the light's (the classical energy is accepted for slow particles), and velocities above it are refused. Debye length, plasma frequency, Coulomb logarithm (at least 2) and collision frequency are the textbook values for every positive density and temperature; others are refused. "
  "Vector algebra is exact. Random numbers are uniform or normal as named, independent of each other and between threads.",
  ["inputs", "configurations"], "every velocity, mass, density, temperature and vector",
  WHY0 + "Errors hide in branches (slow or fast particles) and at the ends of the ranges.",
  ["src/phys/rel.cpp", "src/phys/plasma.cpp", "src/math/rand.cpp", "include/math/vector3d.hpp"], [("lorenz_factor, energy, momentum", "src/phys/rel.cpp"), ("debye_length and others", "src/phys/plasma.cpp"), ("vector3d", "include/math/vector3d.hpp"), ("uniform, normal, random_reverse", "src/math/rand.cpp")],
  "Long-double references; Kolmogorov-Smirnov distance with error probability below 1e-13.", "differential property testing against long-double references and statistical tests"),
P("C19", "Helpers for text, command line, multiples and directories are right",
  "Text is split into its non-empty parts, words of truth are read in any case, a file of numbers gives all its numbers in order, a command line option gives its argument or none, the nearest multiple is the smallest one not below. "
  "Making a data directory makes all its missing levels for any path (relative, absolute, with doubled or trailing slashes), reports success exactly if the directory is there, and never touches a file in its way.",
  ["inputs"], "every text, path and state of the directory tree",
  WHY0 + "Separators at ends, missing levels and files in the way come in combinations.",
  ["src/algo/common.cpp"], [("splitstr, to_bool, read_file_to_double, get_cmd_option, nearest_divide, make_directory", "src/algo/common.cpp")],
  "Paths up to 6 levels in a scratch directory; texts up to 8 parts.", "model-based property testing of generated texts and directory trees"),
P("C20", "Parallel handling of domains is free of races and order effects",
  "Domains are handled by several threads. No two threads access the same data without ordering while one of them writes, from filling the area through every part of a time step, and the resulting particles, currents and fields do not depend on the number of threads or the order in which they run.",
  ["schedules", "histories", "configurations"], "every number of threads, schedule, decomposition and particle set",
  WHY0 + "A race needs two threads to meet in the same data; tests run nothing in parallel.",
  ["src/SMB.cpp", "src/math/rand.cpp"], [("parallel loops over domains, particles_runaway_collector", "src/SMB.cpp"), ("random numbers generator per thread", "src/math/rand.cpp")],
  "Thread sanitizer over generated simulations with 2..8 real threads; two generated sequential schedules against each other.",
  "schedule fuzzing: thread-sanitizer oracle and metamorphic comparison of generated schedules"),
P("C21", "Gauss's law is kept during the whole simulation",
  "While macroparticles move under their own fields, the divergence of the electric field at every inner node keeps following the charge the particles put to that node, for every decomposition and over many steps: current deposition (of the default Villasenor-Buneman scheme), stitching and field update never create or destroy charge.",
  ["inputs", "histories", "configurations"], "every particle set, decomposition and number of steps without absorption",
  WHY0 + "Charge errors accumulate from single flights through particular edges and domain borders.",
  ["src/SMB.cpp", "src/current/currentVB.cpp", "src/maxwellSolver/maxwellSolverYee.cpp"],
  [("solve_maxvell, advance_particles, solve_current", "src/SMB.cpp"), ("CurrentVB::current_distribution", "src/current/currentVB.cpp")],
  "1..64 domains, up to 200 particles, 2..50 steps, every node.", "invariant checking over generated histories"),
P("C22", "Interrupted runs keep the data written and continued runs lose none",
  "A run that is paused (USR1) releases its data file until it is continued (USR2) and then goes on as if nothing had happened: whatever the moments, number and order of these signals, the final data equal those of the undisturbed run. "
  "A run that is terminated at any moment ends with the number of the signal, closes its data file once, and leaves every frame written before intact. An existing data file is never overwritten, and a wrong command line or configuration file is refused without a crash.",
  ["schedules", "histories", "inputs"], "every moment and order of signals, every configuration, every command line",
  WHY0 + "Signals arrive at any point of the run; the wrong moment loses the data.",
  ["src/PiCoPiC.cpp", "src/outController.cpp", "src/outWriter.cpp"], [("signal_handler, main loop, parse_argv_get_config", "src/PiCoPiC.cpp"), ("OutController::set_file", "src/outController.cpp")],
  "Signals are raised between log messages, operations on the data file and naps of a pause, not inside library functions; HDF5 is a stand-in in memory.",
  "fault injection over generated runs with a differential oracle (the undisturbed run)"),
P("C23", "Whole runs end well, complete, finite, reproducible and memory-safe",
  "Every sound configuration runs from the command line, from the configured start to the end of the modelled time, and ends with success and a closed data file holding every frame that was due, written once, all values finite. Every step does all of its parts: injection, fields, motion, collisions, currents and output. The data depend on nothing but the configuration and the random numbers: not on what fresh memory contains. No step reads or writes outside of its memory or has undefined behaviour.",
  ["inputs", "configurations", "histories"], "every configuration file and every build configuration",
  WHY0 + "Memory errors show only for particular sizes, decompositions, probes and species.",
  ["src/PiCoPiC.cpp", "src/SMB.cpp", "src/domain.cpp", "src/outController.cpp", "src/specieP.cpp", "src/algo/common.cpp"], [("main", "src/PiCoPiC.cpp"), ("all code that a run reaches", "src")],
  "Grids up to 24x24 cells in 16 domains, up to 25 steps, 200 macroparticles; 6 of the possible build configurations.",
  "fuzzing of whole runs with sanitizer, completeness, metamorphic (memory contents) and differential (steps by hand) oracles"),
P("C24", "The Python library returns what the program wrote",
  "For every data file that the program writes, the Python reader returns each frame of each probe (rectangle, column, row, dot), each range of frames, and rows, columns and dots of rectangles, with the written values and in the written order; frames that do not exist are refused, and the file is closed afterwards. Metadata (geometry, time, species, beams, probes, plot settings) are those of the configuration, conversions between frames and time, rows and radii, columns and longitudes are each other's inverses, the metadata tool prints them, and its physical values agree with their definitions.",
  ["inputs", "configurations"], "every configuration and every place, shape and number of a frame",
  WHY0 + "Nothing tests the Python library.",
  ["lib/python/picopic/reader.py", "lib/python/picopic/h5_reader.py", "lib/python/picopic/meta_reader.py", "lib/python/picopic/tinycache.py", "tools/parse_metadata.py"],
  [("H5Reader", "lib/python/picopic/h5_reader.py"), ("MetaReader", "lib/python/picopic/meta_reader.py"), ("phys_info", "tools/parse_metadata.py")],
  "Grids up to 12x24 cells, up to 8 steps and 5 probes; h5py is replaced by a stand-in with its indexing.",
  "differential property-based testing (hypothesis) against data written by the program"),
P("C25", "The progress table tells what is written, when and how long it took",
  "During a run every frame that becomes due is listed in the progress table exactly once, in the order of the steps and of the probes in the configuration, with the number of the step, the number of the frame, the path and the shape of the probe, the modelled time and the time elapsed since the program was started (in days, hours, minutes and seconds that add up to it). A header stands above the rows; nothing is printed if the table is switched off.",
  ["inputs", "histories", "configurations"], "every set of probes and schedules, step and elapsed time",
  WHY0 + "The table is what a user follows a run of days with; elapsed times of hours and days and large steps are reached by no test.",
  ["src/msg.cpp", "src/outController.cpp", "src/algo/common.cpp"], [("print_header, print_values", "src/msg.cpp"), ("get_simulation_duration", "src/algo/common.cpp"), ("OutController::init_datasets", "src/outController.cpp")],
  "Up to 5 probes, 60 steps from any step up to 100000 on, 40 days; the clock of the system is replaced by a generated one.",
  "model-based property testing of the parsed table"),
P("C26", "Plots show the data at their real coordinates",
  "The plot builder of the Python library labels every tick of an axis with the real coordinate of its place: linear from the configured start to the configured end of the axis or the subplot (zero included, however small the range), as many ticks as asked for or, by default, from once to twice the guessed number along the longest axis and equally long ones along the others, every second label hidden. Images keep their data, orientation, colours and limits; data of another shape than the plot are refused. Labels of a colour bar are linear between its limits. Subplots and images are found again by their names.",
  ["inputs", "histories"], "every size, range and number of ticks, and every sequence of subplots, images and colour bars",
  WHY0 + "Nothing tests the Python library.",
  ["lib/python/picopic/plot_builder.py"], [("PlotBuilder", "lib/python/picopic/plot_builder.py")],
  "Up to 4 subplots of 40x40 cells; matplotlib is replaced by a stand-in that records what is drawn.",
  "model-based property testing (hypothesis) of the recorded drawing"),
]
