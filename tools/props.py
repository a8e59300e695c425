"""The property list; tools/gen.py writes properties.jsonl and MANIFEST.json from it."""
C = "src/lambdapic/core/"


def p(id, title, statement, over, qtext, why, files, mech, **kw):
    return dict(id=id, title=title, statement=statement, quantifier={"over": over, "text": qtext},
                why_tests_cant=why, anchors={"files": files, "mechanism": [{"name": a, "where": b} for a, b in mech]}, _kw=kw)


PROPS = [
    p("P01", "Guard cells mirror the neighbouring patch on the same rank",
      "After a guard-field exchange, every guard cell of a patch that lies in a neighbouring patch held by the same rank (faces, edges and corners, 2D and 3D) holds exactly the value of the same field component in the neighbour's interior cell at the same physical position. Nothing else is modified: interior cells, components that were not requested, and guard cells facing a missing or remote neighbour keep their values.",
      ["inputs", "configurations"], "every patch size and guard width with n >= guard >= 1, every subset of the neighbours, every requested component list, 2D (8 neighbours) and 3D (26 neighbours)",
      "the tests compare a few patch sizes with all neighbours present; the index arithmetic must be right for every size, direction and neighbour subset",
      [C + "patch/patch.py", C + "patch/sync_fields2d.c", C + "patch/sync_fields3d.c", C + "fields.py"],
      [("same-rank guard copy 2D", C + "patch/sync_fields2d.c:sync_guard_fields_2d"), ("same-rank guard copy 3D", C + "patch/sync_fields3d.c:sync_guard_fields_3d")]),
    p("P02", "Current deposited in same-rank guard cells is added exactly once",
      "After a current reduction, every contribution to current and charge density that a patch deposited in guard cells covering a neighbour on the same rank (faces, edges and corners, 2D and 3D) has been added exactly once to the neighbour's interior cell at the same physical position. The guard cells it was taken from are left zero, and no other cell of any array changes.",
      ["inputs", "configurations"], "every patch size and guard width with n >= guard >= 1, every subset of neighbours, all four deposited components, 2D and 3D",
      "tests check totals for a few layouts; a wrong strip, a doubled or forgotten corner or a cleared-too-early guard shows only for particular neighbour subsets",
      [C + "patch/patch.py", C + "patch/sync_fields2d.c", C + "patch/sync_fields3d.c"],
      [("same-rank current reduction 2D", C + "patch/sync_fields2d.c:sync_currents_2d"), ("same-rank current reduction 3D", C + "patch/sync_fields3d.c:sync_currents_3d")]),
    p("P03", "Guard cells mirror neighbours held by another rank",
      "After a cross-rank guard-field exchange, every guard cell facing a neighbour on another rank holds the value of the same component in that neighbour's interior cell at the same physical position, for faces, edges and corners in 2D and 3D. Each message sent for a (patch, direction, component) is received by exactly the matching receive on the peer with the same length, and no other cell is modified.",
      ["inputs", "configurations", "schedules"], "every patch size n >= guard >= 1, every assignment of patches to ranks, every order in which messages arrive",
      "MPI tests run a handful of layouts on a fixed number of ranks; tag collisions, swapped strips and mismatched extents depend on the layout",
      [C + "mpi/mpi_manager.py", C + "mpi/sync_fields2d.c", C + "mpi/sync_fields3d.c"],
      [("subarray message types and posting", C + "mpi/sync_fields2d.c:sync_guard_fields_2d_start"), ("3D", C + "mpi/sync_fields3d.c:sync_guard_fields_3d_start")]),
    p("P04", "Current deposited in guard cells owned by another rank is added exactly once",
      "After a cross-rank current reduction, every contribution to current and charge density deposited in guard cells facing a neighbour on another rank has been added exactly once to that neighbour's interior cell at the same physical position, in 2D and 3D. The guard cells it was taken from are left zero, and no other cell of any array changes.",
      ["inputs", "configurations", "schedules"], "every patch size n >= guard >= 1, every assignment of patches to ranks, every message arrival order",
      "MPI tests compare totals for a few layouts and rank counts",
      [C + "mpi/mpi_manager.py", C + "mpi/sync_fields2d.c", C + "mpi/sync_fields3d.c"],
      [("pack, post, wait, unpack 2D", C + "mpi/sync_fields2d.c:sync_currents_2d_start"), ("3D", C + "mpi/sync_fields3d.c:sync_currents_3d_start")]),

    p("P05", "Patch neighbour tables describe the domain topology",
      "For every decomposition of the domain into patches and every combination of periodic and open sides, the table of a patch names for each face, edge and corner exactly the patch lying one step in that direction (wrapped around on periodic axes, absent beyond open sides), together with the rank that holds it when it is another rank and its local position when it is the same rank. The relation is symmetric: if A lists B in a direction, B lists A in the opposite direction, and compiled code uses the same direction numbering as the Python code.",
      ["configurations"], "every number of patches per axis, every periodic/open combination, 2D and 3D, every assignment of patches to ranks, any stored patch order",
      "tests look at a few small layouts; wrap-around and corner cases on degenerate axes (one or two patches) and non-contiguous rank maps are not enumerated",
      [C + "patch/patch.py", C + "patch/sync_fields2d.c", C + "patch/sync_fields3d.c", C + "mpi/sync_fields2d.c", C + "mpi/sync_fields3d.c"],
      [("neighbour index tables", C + "patch/patch.py:init_rect_neighbor_index_2d/_3d"), ("rank and local-position tables", C + "patch/patch.py:init_neighbor_rank_*, init_neighbor_ipatch_*"), ("direction enumerations", C + "patch/patch.py:Boundary2D/Boundary3D")]),
    p("P06", "Particles crossing a patch edge on the same rank arrive once, intact",
      "After a same-rank particle exchange every live particle that left its patch towards a neighbour on the same rank is held exactly once by that neighbour with every attribute (including weight and identifier) unchanged except a position shift by the domain length on periodic axes, and its old slot is dead. Particles that stayed are not touched, and live particles of the receiver are never overwritten.",
      ["inputs", "configurations"], "every particle position, every patch layout and neighbour subset, every number of dead slots, 2D and 3D",
      "tests move a few particles across a few edges",
      [C + "patch/patch.py", C + "patch/sync_particles_2d.c", C + "patch/sync_particles_3d.c"],
      [("count and collect outgoing", C + "patch/sync_particles_2d.c:count_outgoing_particles"), ("fill from neighbours", C + "patch/sync_particles_2d.c:fill_particles_from_boundary_2d"), ("3D", C + "patch/sync_particles_3d.c:fill_particles_from_boundary_3d")]),
    p("P07", "Particles crossing to another rank arrive once, intact",
      "After a cross-rank particle exchange every live particle that left its patch towards a neighbour on another rank is held exactly once by that neighbour with every attribute unchanged except the periodic position shift, and its old slot is dead. Sender and receiver agree on counts, attribute order, destination and message identity for every (patch, direction, species).",
      ["inputs", "configurations", "schedules"], "every particle position, every assignment of patches to ranks, every message order, 2D and 3D",
      "MPI tests run a few layouts with few particles",
      [C + "mpi/mpi_manager.py", C + "mpi/sync_particles_2d.c", C + "mpi/sync_particles_3d.c"],
      [("count exchange", C + "mpi/sync_particles_2d.c:get_npart_to_extend_2d"), ("attribute exchange", C + "mpi/sync_particles_2d.c:fill_particles_from_boundary_2d_start"), ("3D", C + "mpi/sync_particles_3d.c")]),
    p("P08", "Parallel kernels are free of data races",
      "In every parallel region of the compiled and JIT-compiled kernels, no two iterations that may run at the same time write the same memory location, and none reads a location another writes, apart from recognised reductions. Results therefore do not depend on the number of threads or their interleaving.",
      ["schedules", "inputs"], "every thread count and interleaving, every patch count and field/particle content",
      "a race shows only under particular interleavings; tests run each kernel a few times and compare with tolerances",
      [C + "mpi", C + "patch", C + "pusher", C + "current", C + "interpolation", C + "sort", C + "maxwell", C + "collision", C + "qed"],
      [("OpenMP regions", C + "**/*.c: #pragma omp parallel for"), ("numba prange loops", C + "**/cpu.py: prange")]),
    p("P09", "Every step runs the physics stages in leapfrog order on fresh data",
      "Each time step advances fields and particles in one fixed order: first half field update, per-species push and deposition, current reduction, particle exchange, second half field update; each half update advances E and B by half a step, in mirrored order, and each is followed by a guard exchange before anything reads guards. Deposited currents of all species are reset once per step before any deposition and reduced over same-rank and remote neighbours exactly once before the electric field uses them.",
      ["histories", "configurations"], "every combination of enabled modules, species, dimensions and callbacks, every step",
      "tests run short simulations with tolerance checks; a missing guard exchange or a doubled reduction for one configuration can pass",
      ["src/lambdapic/simulation/simulation.py"],
      [("main loop", "src/lambdapic/simulation/simulation.py:Simulation.run")],
      tech="static analysis: typestate automaton over the inlined call trace of the step driver (AST), over enumerated module configurations",
      note="Decided for two consecutive symbolic steps of Simulation.initialize/run with every driver function under simulation/ inlined and every module call opaque, over about fifty module configurations; what a module does inside its call is decided by P01, P02, P08, P10, P12-P17. Trusts the analyser."),
    p("P10", "The fused pusher is equivalent to the separate stages",
      "For every live particle the fused particle pusher performs exactly the same sequence as the separate stages: half position push, field gather at the new position, momentum update, half position push, current deposition, each with the same formulas, in 2D and 3D. Whether the fused kernel takes its block-wise fast path or its per-particle path does not change what a live particle does.",
      ["inputs", "configurations"], "every particle and field state, any mix of dead and live particles, 2D and 3D",
      "tests compare a few random cases",
      [C + "pusher/unified/unified_pusher_2d.c", C + "pusher/unified/unified_pusher_3d.c", C + "pusher/pusher.py"],
      [("fused kernel 2D", C + "pusher/unified/unified_pusher_2d.c:unified_boris_pusher_cpu_2d"), ("3D", C + "pusher/unified/unified_pusher_3d.c:unified_boris_pusher_cpu_3d")]),
    p("P11", "Kernels never work on stale particle or field buffers",
      "After any operation that replaces a species' particle storage in a patch (growth, creation, load balancing, window shift, checkpoint restore), every kernel that later touches that species in that patch works on the new storage. No module keeps using the buffers that were replaced.",
      ["histories", "configurations"], "every module combination and every sequence of growth, creation, balancing and restart",
      "stale buffers still hold plausible data, so short tests pass",
      ["src/lambdapic/simulation/simulation.py", C + "pusher/pusher.py", C + "interpolation/field_interpolation.py", C + "current/deposition.py", C + "sort/particle_sort.py", C + "qed", C + "collision"],
      [("list refresh", "src/lambdapic/simulation/simulation.py:update_lists")]),
    p("P12", "The field update is the exact Yee curl on every interior cell",
      "One electric-field update adds dt*(c^2 curl B - J/epsilon0) with backward differences and one magnetic-field update subtracts dt*curl E with forward differences, each component with the two staggered neighbours and spacings its curl prescribes, on every interior cell exactly once, in 2D and 3D. In patches with absorbing layers each curl term is divided by the stretching factor of its axis, which is one outside the layers; nothing else is modified.",
      ["inputs", "configurations"], "all field values, spacings, time steps, patch sizes and every assignment of absorbing layers to patches",
      "tests propagate a few pulses; an error in one component, one edge row or one layer combination hides below tolerances",
      [C + "maxwell/cpu.py", C + "maxwell/solver/solver.py", C + "boundary/cpml.py"],
      [("interior update", C + "maxwell/cpu.py"), ("update in absorbing patches", C + "boundary/cpml.py:update_efield_cpml_2d ..."), ("dispatch and stretching profiles", C + "maxwell/solver/solver.py")]),
    p("P13", "Absorbing layers apply the matched recursive convolution",
      "In every absorbing layer each of the four transverse components receives exactly one convolution correction per half update, with the sign its curl term prescribes, decay exp(-(sigma/kappa+a)dt) and the matching amplitude, over exactly the layer's strip of cells. The stretching, conductivity and shift profiles depend only on the depth from the outer edge (cubic, cubic, linear), are sampled half a cell apart for E and B, and are mirror images on opposite sides and identical across axes.",
      ["inputs", "configurations"], "all field values, layer thicknesses thinner than the patch, every set of layers on a patch, 2D and 3D",
      "tests watch a reflected pulse in one configuration",
      [C + "boundary/cpml.py", C + "maxwell/solver/solver.py"],
      [("convolution updates", C + "boundary/cpml.py:update_psi_x_and_e_2d ..."), ("profiles", C + "boundary/cpml.py:PMLXmin.init_parameters ...")]),
    p("P14", "Particles feel the staggered fields with quadratic spline weights",
      "Every live particle receives, for each of the six field components, the sum over the three nearest grid points per axis of the field times the quadratic spline weight of its distance to that component's staggered position; the weights of an axis are non-negative and sum to one. This holds for particles anywhere in the patch including its guard region, identically in the fast and the general path, in 2D and 3D.",
      ["inputs"], "every particle position, every field, every patch size",
      "tests check constant or linear fields at a few positions",
      [C + "interpolation/cpu2d.c", C + "interpolation/cpu3d.c", C + "interpolation/field_interpolation.py"],
      [("gather 2D", C + "interpolation/cpu2d.c:interpolation_2d"), ("gather 3D", C + "interpolation/cpu3d.c:interpolation_3d")]),
    p("P15", "Current deposition conserves charge cell by cell",
      "For every particle that moves less than a cell per step the deposited charge is its spline shape at the end of the step, and the deposited current satisfies the discrete continuity equation with the change of that shape in every cell; the transverse current (2D) and every component's total equal charge times weight times velocity. This holds for every sub-cell position and every combination of cell crossings, near patch edges (where cells wrap into the guard region) as well as inside, in 2D and 3D, and each particle deposits once.",
      ["inputs"], "all positions, velocities below one cell per step, all 9/27 crossing combinations, both the plain and the fused deposition",
      "tests check totals and a few trajectories",
      [C + "current/current_deposit.h", C + "current/cpu2d.c", C + "current/cpu3d.c"],
      [("deposition kernels", C + "current/current_deposit.h"), ("entry points", C + "current/cpu2d.c")]),
    p("P16", "The momentum push is the relativistic Boris rotation",
      "One momentum push performs half an electric kick, a magnetic rotation that leaves the momentum magnitude unchanged, and another half kick, with charge-to-mass factors q dt/(2 m c) and q dt/(2 m), for each live particle. Afterwards the stored inverse Lorentz factor equals 1/sqrt(1+u^2) of the stored momentum; the compiled and the Python variants agree.",
      ["inputs"], "all momenta, fields, charges, masses and time steps",
      "tests compare a few orbits",
      [C + "pusher/boris.py", C + "pusher/cpu.py", C + "pusher/unified/unified_pusher_2d.c", C + "pusher/unified/unified_pusher_3d.c"],
      [("python/numba push", C + "pusher/boris.py:boris_inline"), ("C push", C + "pusher/unified/unified_pusher_2d.c:boris")]),
    p("P17", "Positions advance with the relativistic velocity along every axis",
      "A position push over an interval adds c*dt*u/gamma to each coordinate the simulation has, for every live particle of every species (charged or photon), in 2D and 3D. Momenta and all other attributes are unchanged by it.",
      ["inputs", "configurations"], "all momenta, both dimensions, every pusher type, fused or separate stages",
      "tests cover the fused 2D/3D and separate 2D path only for a few particles",
      [C + "pusher/cpu.py", C + "pusher/pusher.py", C + "pusher/unified/unified_pusher_2d.c", C + "pusher/unified/unified_pusher_3d.c"],
      [("separate push", C + "pusher/pusher.py:PusherBase.push_position"), ("fused push", C + "pusher/unified/unified_pusher_3d.c:push_position_3d")]),
    p("P18", "Dead particle slots are inert",
      "A slot marked dead is never moved, never gathers fields, never gains momentum, never deposits charge or current, never radiates, collides or creates particles, and is never written to particle files or sent to another patch. Only the creation of a particle (injection, exchange, photon or pair creation) writes a dead slot.",
      ["inputs", "histories"], "any mix of dead and live slots in any position of the arrays",
      "dead slots usually hold harmless values, so missing checks go unnoticed",
      [C + "pusher", C + "current", C + "interpolation", C + "qed", C + "collision", C + "sort"],
      [("per-particle loops", C + "pusher/cpu.py, current/cpu2d.c, interpolation/cpu2d.c, qed/*.py")]),
    p("P19", "Sorting permutes whole particles",
      "Sorting a species reorders its slots by spatial cell without losing, duplicating or altering any particle: every attribute, including identifier bits and the dead flag, moves with the same permutation. The bucket bounds it reports delimit exactly the particles of each cell.",
      ["inputs"], "every particle distribution, every number of dead slots, every attribute set, 2D and 3D",
      "tests check order for random sets; an attribute left behind shows only in rarely used species",
      [C + "sort/cpu2d.c", C + "sort/cpu3d.c", C + "sort/particle_sort.py"],
      [("bucket sort 2D", C + "sort/cpu2d.c:sort_particles_patches_2d"), ("bucket sort 3D", C + "sort/cpu3d.c")]),
    p("P20", "Compiled extensions handle memory, references and the GIL safely",
      "In every compiled extension function, on every path including errors, no reference is leaked or over-released, memory owned by an array is never freed, allocated buffers are released once, and the interpreter is not used while its lock is released. The lock is always re-acquired before returning.",
      ["inputs", "fault_sequences"], "every return path of every extension function",
      "leaks and double frees on rare paths do not fail a functional test",
      [C + "mpi", C + "patch", C + "pusher/unified", C + "current", C + "interpolation", C + "sort", C + "utils/cutils.h"],
      [("extension functions", C + "**/*.c")]),
    p("P21", "MPI communication completes and all ranks take part in collectives",
      "Every non-blocking message is completed exactly once before its buffers are reused or freed, on every path. Every collective operation is reached by all ranks in the same order, never under a condition that can differ between ranks.",
      ["schedules", "configurations", "fault_sequences"], "every number of ranks, every message order, every rank-local state",
      "a mismatch shows as a hang only for particular layouts or signals",
      [C + "mpi", "src/lambdapic/simulation/simulation.py", "src/lambdapic/callback"],
      [("non-blocking halo and particle exchange", C + "mpi/*.c"), ("collectives", "src/lambdapic/callback/utils.py, core/mpi/*.py")]),
    p("P22", "A restart continues exactly where the dump stopped",
      "A checkpoint stores the complete state a continued run needs (fields, absorbing-layer memory, particles, random streams, time and step number), and loading it reproduces that state on the rank layout it was written with, continuing with the next step. Old checkpoints are only removed after the new one is complete on all ranks, and the newest complete ones are kept.",
      ["histories", "crash_points", "configurations"], "every step at which a dump is taken, every module combination, any number of kept checkpoints",
      "tests dump and load once in one configuration",
      ["src/lambdapic/callback/utils.py", "src/lambdapic/simulation/simulation.py"],
      [("dump and load", "src/lambdapic/callback/utils.py:RestartDump"), ("resume", "src/lambdapic/simulation/simulation.py:run")],
      na="what a dump contains is fixed by dill's traversal of the live object graph (jit dispatchers, ctypes handles, communicators, generator state) at run time; no static argument in reach shows that the loaded graph equals the dumped one. The random streams' independence (P33) and the step order on resuming (P09) are decided separately"),
    p("P23", "Load balancing moves whole patches and keeps the domain complete",
      "After load balancing every patch of the domain is held by exactly one rank with its fields, absorbing-layer state and particles unchanged, and every rank's tables (ranks, neighbours, local order) describe the new placement. If nothing needs to move, nothing changes.",
      ["histories", "configurations"], "every load distribution and rank count",
      "MPI tests balance a few layouts",
      [C + "mpi/load_balancer.py"], [("rebalance", C + "mpi/load_balancer.py:LoadBalancer")],
      na="the placement is computed by an external graph partitioner and patches travel as pickled object graphs; what arrives is decided at run time. The neighbour and rank tables built from a placement are decided by P05, kernel buffers after a move by P11, matching collectives by P21"),
    p("P24", "The moving window shifts by whole patches without disturbing the interior",
      "Each window shift drops exactly the trailing column of patches and opens one fresh leading column, shifting positions and grid origins consistently, so that surviving patches keep their fields and particles at unchanged physical positions. Neighbour tables, absorbing layers and kernel buffers describe the shifted domain before they are next used.",
      ["histories", "configurations"], "any start time, velocity, patch layout and rank count, 2D and 3D",
      "tests shift a few times in one layout",
      ["src/lambdapic/callback/utils.py"], [("window shift", "src/lambdapic/callback/utils.py:MovingWindow")]),
    p("P25", "Photon emission conserves momentum share and bookkeeping",
      "When a radiating particle emits, a photon is created in a dead slot at the particle's position with the drawn fraction of its momentum and its weight, the emitter keeps exactly the complementary fraction, and inverse Lorentz factors of both are refreshed. Particles without an event, dead particles and particles below threshold are unchanged; every emission creates exactly one photon.",
      ["inputs", "histories"], "all particle states, any distribution of events and dead slots",
      "tests check statistics of one configuration",
      [C + "qed/radiation.py", C + "qed/cpu.py"], [("event, recoil and creation", C + "qed/radiation.py")]),
    p("P26", "Pair creation conserves momentum share and bookkeeping",
      "When a photon decays, one electron and one positron are created in dead slots at the photon's position sharing its momentum in the drawn fractions that sum to one, with the photon's weight and refreshed inverse Lorentz factors, and the photon is removed exactly once. Photons without an event are unchanged.",
      ["inputs", "histories"], "all photon states, any distribution of events and dead slots",
      "tests check statistics of one configuration",
      [C + "qed/pair_production.py", C + "qed/cpu.py"], [("event and creation", C + "qed/pair_production.py")]),
    p("P27", "Quantum events follow optical depth and stay inside the tables",
      "An emission or decay event is only raised for a live particle above threshold, in proportion to the tabulated rate times the elapsed proper time, and every table lookup stays inside the table for all parameter values. Tables are read with the same parameter axis they were built with.",
      ["inputs"], "all field strengths and momenta, including values beyond both ends of the tables",
      "tests sample typical values, far from the table ends",
      [C + "qed/cpu.py", C + "qed/radiation.py", C + "qed/pair_production.py"], [("rates and events", C + "qed/cpu.py")]),
    p("P28", "Binary collisions conserve momentum and energy",
      "A collision between two particles of equal weight leaves the sum of their momenta and energies unchanged, and with different weights changes each partner with the probability that conserves them on average. Inverse Lorentz factors match the new momenta, and particles in different cells or dead slots never collide. Every living particle of a cell with a possible partner takes part, weight and time factors match the number of pairs, and screening lengths and densities are those of the living particles of this step, whenever the collision groups are registered.",
      ["inputs"], "all momenta, masses, weights and scattering angles",
      "tests check totals of one plasma within noise",
      [C + "collision/cpu.py", C + "collision/collision.py"], [("scattering", C + "collision/cpu.py")]),
    p("P29", "Callbacks run at their stage and interval only",
      "A callback runs at exactly the stages and steps its trigger asks for (step interval, time interval or predicate), at most once per step and stage, in registration order, on all ranks. Stages that cannot be provided by the chosen pusher force the separate-stage path.",
      ["histories", "configurations"], "every interval specification, stage and step number",
      "tests use a few intervals and short runs",
      ["src/lambdapic/callback/callback.py", "src/lambdapic/simulation/simulation.py"], [("trigger", "src/lambdapic/callback/callback.py")],
      tech="static analysis: symbolic guard comparison of the trigger functions and typestate over the inlined step driver",
      note="The trigger condition of every interval kind is compared with its reference condition for all step numbers and times; stage order and once-per-stage are decided on the inlined trace of two steps. The body of user callbacks is outside. Trusts the analyser."),
    p("P30", "Gathered and saved fields place every patch at its global position",
      "A field gathered to the root rank or written to a file contains every patch's interior cells exactly once at the patch's global offset, for every component, slice and rank layout, without guard cells. Particle output contains every live particle of the species once with all attributes of a particle in the same row.",
      ["configurations", "inputs"], "every decomposition, slice position and rank layout, 2D and 3D",
      "tests compare a few layouts on one rank",
      ["src/lambdapic/callback/utils.py", "src/lambdapic/callback/hdf5.py"], [("gather", "src/lambdapic/callback/utils.py:get_fields_2d/get_fields_3d"), ("save", "src/lambdapic/callback/hdf5.py")]),
    p("P31", "Particle loading fills exactly the slots it counted",
      "The number of macro-particles reserved for a species in a patch, at start and when the moving window brings in new patches, equals the number written when the patch is filled: every reserved slot gets a position drawn over the whole of its own cell, the weight density times cell volume over the particles of the cell, and no cell above the density threshold is skipped or filled twice. Every particle of a loaded file that lies on a patch is added to the given species there exactly once, alive, with the attributes of the file (zero where the file has none) and the inverse Lorentz factor of its momentum; particles that were there stay.",
      ["inputs", "configurations"], "every density profile, particles-per-cell profile and patch layout, 2D and 3D",
      "tests use uniform densities",
      [C + "patch/cpu.py", C + "patch/patch.py", "src/lambdapic/callback/utils.py"], [("count", C + "patch/cpu.py:get_num_macro_particles_2d"), ("fill", C + "patch/cpu.py:fill_particles_2d"), ("file", "src/lambdapic/callback/utils.py:LoadParticles")]),
    p("P32", "Particle identifiers are unique and permanent",
      "Every particle gets an identifier when created that no other particle of its species on any rank or patch ever gets: rank, patch and local number are packed without overlap and refused beyond their capacity, and local numbers are never handed out twice through initialisation, growth, window shifts and emission. It keeps it through growth and pruning, and the identifier is among the attributes that sorting and migration carry along.",
      ["histories", "configurations"], "every number of ranks, patches and creations within the documented capacity",
      "tests check uniqueness in one short run",
      [C + "particles.py"], [("identifier packing", C + "particles.py:ParticlesBase")]),
    p("P33", "Random streams are independent per rank and patch and reproducible by seed",
      "Given a seed (zero included), particle placement, temperature initialisation and collisions of every rank draw from streams derived from that seed and the position of rank and patch: no two ranks share a stream, no two patches placed or collided at the same time share one, and nothing there draws from a process-wide stream or from the clock. Without a seed every rank has a stream of its own from the operating system. Radiation and pair production, which draw from the compiler's per-thread streams, are outside.",
      ["configurations"], "every seed, rank and patch count",
      "coinciding streams pass functional tests",
      ["src/lambdapic/simulation/simulation.py", "src/lambdapic/callback/utils.py", C + "patch/patch.py", C + "collision"], [("stream set-up", "src/lambdapic/simulation/simulation.py:_init_random_generator")]),
    p("P34", "Invalid configurations are rejected and the time step respects the CFL limit",
      "A simulation is only constructed when sizes and spacings are positive, the grid divides into whole patches along every axis, patches hold the guard width, and the CFL fraction lies in (0, 1]; an absorbing layer is refused (ValueError) in a patch that is not wider than the layer. The time step is the given CFL fraction of 1/(c*sqrt(sum 1/d^2)) over the axes the simulation has. A division chosen automatically is validated by the same rules before anything is built, and fits guard and layer along every axis whenever a candidate division does.",
      ["configurations"], "every grid, patch count, guard and layer size",
      "tests construct a few valid configurations",
      ["src/lambdapic/simulation/simulation.py"], [("validation and time step", "src/lambdapic/simulation/simulation.py:SimulationConfig")]),
    p("P36", "Absorbing layers sit exactly on the open sides of the domain",
      "A patch carries the low/high absorbing layer of an axis if and only if it is the first/last patch along that axis and that side is not periodic, after construction as well as after balancing and window shifts. Layers never appear between patches, and the side and axis of the layer match the side of the domain.",
      ["configurations", "histories"], "every decomposition and every periodic/open combination, 2D and 3D",
      "tests use the default all-open configuration",
      ["src/lambdapic/simulation/simulation.py", C + "patch/patch.py"], [("assignment", "src/lambdapic/simulation/simulation.py:_init_pml")]),
]

NA = [
    p("N01", "Total energy stays bounded over long runs", "In a closed system the sum of field and particle energy stays within a bounded fraction of its initial value over arbitrarily long runs.",
      ["histories"], "every initial plasma and run length", "tests run short simulations", [C + "maxwell/cpu.py"], [("whole code", "src/lambdapic")],
      na="a statement about accumulated floating-point dynamics over unbounded runs; no static argument over the source bounds it"),
    p("N02", "Outgoing waves are absorbed without noticeable reflection", "Waves leaving through an open side are absorbed with a reflection below the design level for all angles of incidence.",
      ["inputs"], "every wave and angle", "tests watch one pulse", [C + "boundary/cpml.py"], [("layers", C + "boundary/cpml.py")],
      na="the reflection level is a runtime numeric quantity of the discretised layer; the formulas themselves are decided by P13"),
    p("N03", "Emission, pair and collision statistics follow the physical rates", "Sampled spectra, event rates and scattering angles follow their theoretical distributions.",
      ["inputs"], "all parameters", "tests sample a few parameters", [C + "qed", C + "collision"], [("samplers", C + "qed/cpu.py")],
      na="distributional correctness of sampled values and of precomputed table data cannot be read off the source; only the bookkeeping (P25-P28) can"),
    p("N04", "Load balancing improves the load distribution", "After balancing, the maximum load over ranks is not larger than before and close to the average.",
      ["histories"], "all load distributions", "tests check one distribution", [C + "mpi/load_balancer.py"], [("partition", C + "mpi/load_balancer.py")],
      na="the quality of the partition is decided inside an external graph partitioner at run time"),
]


# deciding method and reach, per check
TECHS = {
    "P31": ("abstract interpretation of counting, filling, the moving window's injection and the file loader over small patches, every random draw a symbol with its range; ranges, draws, weights and slots of every particle compared with the profile",
            "Two patches of 2x3 and 2x2x2 cells, three species, five to seven density patterns (at, below, above the threshold, fractional particle numbers); files of eight to ten particles on edges, inside and outside, all particle classes, several attribute sets and batch sizes. Density functions that differ between calls and numpy/h5py themselves are trusted."),
    "P32": ("abstract interpretation of identifier generation on a basis of bit values, over histories of initialisation, growth and pruning for every particle class, and over all patches of several ranks; call-graph query for functions that revive dead slots without numbering them",
            "Every single bit of rank, patch and number and their unions; four histories per class; up to four patches on three ranks for every species class. Particles created by emission and pair production keep the identifier of the slot (two known findings). Carrying by sorting and migration is decided by P06, P07 and P19; restart files are outside."),
    "P33": ("provenance dataflow: every generator is a symbol recording its origin, followed from the seed through set-up, distribution and consumers; syntax-tree query for every other source of randomness in the package",
            "One to four ranks, seeds none, zero and nonzero, one to five patches, 2D and 3D; the query covers every function outside radiation and pair production. The quality of numpy's spawn is trusted."),
    "P08": ("dataflow over the C syntax tree (shared writes inside parallel regions); effect trees of particle, field and JIT kernels at symbolic sizes (one owning index per array, no carried variable); access sets of every parallel iteration recorded by abstract interpretation of exchange, sort, creation and collision kernels on enumerated layouts, compared between barriers",
            "The private and ownership rules hold for every size and thread count; the access-set rule is decided on enumerated layouts (two to four patches in 2D and 3D, with outgoing, incoming and dead particles in every direction). Two patches holding the same array are excluded by construction of the layouts. OpenMP and the JIT compiler's own scheduling are trusted."),
    "P28": ("extraction of the scattering formulas by symbolic evaluation of the compiled kernel's source, checked against the conservation laws on every kinematic region; constant propagation of the pairing iterators over dead patterns and shuffles; dataflow of cells, species and random streams through the patch loops",
            "Formulas of both partners (fixed and computed logarithm, one and two species) are decided at representative points of every region (relativistic, at rest, aligned with z, equal and unequal weights and masses); pairing for up to 4 (thorough 6) slots per side, all dead patterns, all shuffles up to 3 slots. The distribution of scattering angles and the value of the logarithm are outside. Trusts the analyser."),
    "P03": ("abstract interpretation of all ranks' managers and compiled exchange on enumerated layouts with symbolic cell contents, with messages matched statically by partner, tag and communicator; final cells compared with the specification",
            "Enumerated grids of 1 to 9 patches, rank maps, cell counts and guard widths (2D and 3D), all open/periodic combinations that matter; every cell holds a distinct symbol, so agreement means every cell comes from the right place. Sends complete only on reception and no wildcard is used, so the outcome is schedule independent. Two geometries in one process are included. MPI's own implementation is trusted."),
    "P04": ("abstract interpretation of all ranks' managers and compiled reduction on enumerated layouts with symbolic cell contents, with messages matched statically; final cells compared with the specification",
            "As P03 for the current and charge reduction; sums are compared as polynomials, so a contribution lost, doubled or misplaced shows."),
    "P30": ("abstract interpretation of the gather, density extraction and file writers for all ranks of enumerated layouts: every cell a distinct symbol, messages matched statically, file regions compared cell by cell with the owning patch; barrier epochs order creation and writing",
            "Grids of 1 to 6 patches with unequal extents, guards 1 to 3, up to three ranks with patches in any list order; full domain and index/range/stride/negative slices; slice planes at quarter cells across the whole height; first, second and third species; serial and parallel files; particle files over dead patterns. Masked domains, plots and VTK output are outside. numpy, h5py and MPI transport are modelled."),
    "P18": ("abstract interpretation of every consumer of particle slots: path conditions of the compiled and Python kernels imply that the slot is alive; emission, pairs, events, collisions, exchange and particle files over every dead-flag pattern of small arrays with symbolic contents",
            "Kernel conditions are decided for symbolic arrays of any length (three to twelve position classes per fused, gather and deposit kernel; P10, P14 and P15 enumerate all). Patterns: three emitters with one or two product slots, collision cells up to three living particles per side, saved files of two patches on up to three ranks. Loads for balancing and plots are outside. numpy and h5py are modelled."),
    "P19": ("abstract interpretation of the sorter and its compiled kernel over enumerated slot patterns, attribute values symbolic; permutation and bucket bounds read off the resulting stores",
            "2D and 3D, mirrored and drift-dependent numbering, several patches at once, sorted twice with moved, grown and replaced arrays; positions are representatives of their cell and patterns are small"),
    "P20": ("typestate analysis over all paths of the C syntax tree: owned/borrowed references, heap buffers, GIL state and capsule contents, across helper functions and error exits",
            "Every exported function and capsule destructor of every extension, every path (loops by generic element). Allocation failures count only where the code tests for them; read-only list/float accessors inside OpenMP regions are allowed while the caller holds the GIL; values borrowed from an object the caller keeps alive are assumed to live."),
    "P21": ("interprocedural rank-uniformity dataflow (values derived from rank, local patches, clock, files, signals) with collective traces compared under every varying condition; typestate of non-blocking requests in Python and C",
            "All package functions that reach a collective (callbacks, output, restart, load balancer, driver, compiled exchange calls). User configuration, callbacks and intervals are taken as equal on all ranks; the interactive reload command is out of scope. Message matching itself is P03, P04 and P07."),
    "P06": ("abstract interpretation of the Python and compiled exchange on enumerated layouts and slot patterns with symbolic particle attributes (where each attribute flows), bounds of every access, final slots compared with the specification",
            "All directions, edges, corners, exact edges, dead slots with stale positions, no/few/many free slots, empty patches, one to three species, 1 to 8 patches in 2D and 3D with open and periodic axes (self neighbours included). Particle attributes are symbols; positions are representatives of each class."),
    "P07": ("abstract interpretation of all ranks together (managers, compiled count and attribute exchange, then the local exchange) on enumerated layouts and slot patterns with symbolic attributes and statically matched messages",
            "As P06 with 2 to 4 ranks and up to three species in flight at once. Messages must agree in partner, tag, type and length, be unambiguous while in flight and complete under synchronous sends; buffers may not be written or freed in flight. MPI_TAG_UB is taken as sufficient (its guard is a runtime error)."),
    "P05": ("constant propagation of the table builders over all patch grids of a bounded shape plus a symbolic position-class argument",
            "Index tables are decided for every patch-grid size (position classes with symbolic slack) and every combination of periodic and open sides; rank and local tables on enumerated placements. Trusts the analyser and numpy."),
    "P11": ("storage-ownership (stale reference) dataflow: every list argument of every compiled call site is checked against the array its patch holds after each kind of renewal; typestate over the step driver",
            "All modules are built on two patches and three species (2D and 3D); every way the package replaces storage or moves patches is applied, alone and paired; the lists handed to compiled code are compared entry by entry with the current storage. Longer sequences follow because the refresh makes every list current. Restart is decided by P22's clauses only as far as claimed there. numpy's resize is taken to invalidate every earlier reference."),
    "P24": ("symbolic evaluation of the moving-window callback on position classes, final state compared with the specification",
            "Both shift directions, 2D and 3D, several grids and ranks with symbolic spacing and shift; fields, particles, neighbours and injection compared as final states. MPI collectives are modelled as returning every rank's contribution."),
    "P25": ("symbolic evaluation on enumerated slot patterns: every final slot content compared as a formula with the specification",
            "Every combination of dead and event flags over small arrays, symbolic contents, 2D and 3D, two patches of different pattern. numpy element semantics and array growth are modelled."),
    "P26": ("symbolic evaluation on enumerated slot patterns: every final slot content compared as a formula with the specification",
            "Every combination of dead and event flags of photon, electron and positron slots over small arrays, symbolic contents, 2D and 3D."),
    "P27": ("extraction of event, chi and lookup formulas by symbolic evaluation, compared with the specification on every region of chi, optical depth and drawn number; constant propagation of the table searches on tables with plateaus; index-range obligations on every table read",
            "The formulas are exact; they are compared at points inside and on every boundary of their regions. Rounding at the upper end is represented by an axis step rounded down. The tables themselves are generated at build time: table_gen is checked against the rate formula on its own axis with the Airy functions left abstract."),
    "P34": ("path-condition extraction: construction is reduced to the formula under which no path raises, compared with the rule over a box of sizes; derived values compared as formulas",
            "Pydantic models are given their documented meaning. The formula is exact; it is compared with the rule at every point of a box that holds all relations (dividing, below/at/above the guard width, zero, negative)."),
    "P36": ("symbolic evaluation of layer creation over side combinations, profiles compared as formulas",
            "Every side combination of a patch and every position class; includes re-creation after a window shift."),
}
