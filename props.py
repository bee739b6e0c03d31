"""Per-property texts and configuration.  gen.py writes properties.jsonl and MANIFEST.json from this."""
_DISK = "the simulated disk under the C library (fopen/write/writev/read/fclose of scratch files; seeded ENOSPC, EIO, short transfers, EINTR, failing open/close)"
_ALLOC = "the simulated allocator (operator new; the n-th allocation of an operation fails)"
_RNG = "the random-number stream, installed through the library's own custom-generator hook (seeded, with edge values and throwing draws)"
_CI = "CubicInterpolation (third-party, absent here) replaced by a stand-in with the same interface; only linked, not exercised, unless stated"
SRC = "src/PROPOSAL/detail/PROPOSAL/"
INC = "src/PROPOSAL/PROPOSAL/"
MATH, DEC = SRC + "math/", SRC + "decay/"

PROPS = {}


def P(pid, title, statement, over, qtext, why, files, mech, rule, real, stub, runs=12000, note="", part="core", **kw):
    PROPS[pid] = dict(part=part, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech,
                      rule=rule, real=real, stub=stub, runs=runs, note=note, **kw)


P("P01", "A saved interpolation table is durable, and its save status is honest",
  "When saving an interpolation table reports success, the file on disk is complete: loading it later, also in a new process, gives a table that answers every query as the original does. When the disk is full, fails, or accepts only part of the data at any point, the save reports failure. A failed save leaves the table in memory unchanged and a repeated save on a healed disk succeeds.",
  ["fault_sequences", "crash_points", "inputs"], "every table (1- and 2-dimensional, any order, axis type, text or binary), every point of the file at which the disk can fail, every sequence of failed and repeated saves",
  "tests save a handful of tables to a working disk; no test makes a write, flush or close fail",
  [MATH + "Interpolant.cxx", INC + "math/Interpolant.h"], [("Interpolant::Save", MATH + "Interpolant.cxx")],
  "one run = one random table (shape, order, axes, text/binary) stored 1-3 times, each with a seeded disk or allocation fault, then once on a healed disk; non-trivial = at least one faulty store",
  ["Interpolant (tables, Save, Load)", "libstdc++ file streams"], [_DISK, _ALLOC])

P("P02", "A damaged or unreadable table is never silently used",
  "Loading an interpolation table from a file that is missing, truncated at any byte, unreadable part-way, or when memory runs out, reports failure and never crashes. A failed load leaves the object as it was before. Once the fault is gone the same object loads the table correctly.",
  ["fault_sequences", "crash_points", "histories"], "every truncation point and read fault of every table file, every sequence of failed and successful loads of one object",
  "tests only load complete files written a moment before",
  [MATH + "Interpolant.cxx"], [("Interpolant::Load", MATH + "Interpolant.cxx")],
  "one run = one random table stored, then loaded 1-4 times by one reader object from truncated, unreadable, missing or intact files with seeded read/allocation faults, then healed; non-trivial = at least one faulty load",
  ["Interpolant (tables, Save, Load)", "libstdc++ file streams"], [_DISK, _ALLOC])

P("P03", "Interpolation tables survive any chain of copies, assignments, swaps and reloads",
  "Whatever sequence of copying, assigning, swapping, saving, loading and destroying interpolation tables go through, each table keeps its own contents: it answers queries as a freshly built table from the same data and compares equal to it. No operation on one table changes another.",
  ["histories", "inputs"], "every sequence of copy/assign/swap/save/load/destroy operations over tables of every shape",
  "tests check one copy or assignment at a time, of one or two fixed tables",
  [MATH + "Interpolant.cxx"], [("copy constructor, operator=, swap, operator==", MATH + "Interpolant.cxx")],
  "one run = a random chain of create/copy/assign/swap/store+load/destroy/query operations over several tables, compared with freshly built twins; non-trivial = at least one copy, assignment, swap or reload",
  ["Interpolant"], [])

P("P04", "Table queries do not depend on earlier queries, and inverse search inverts",
  "The answer of an interpolation table to a query depends only on the table and the query, not on any queries made before. A table reproduces the tabulated function at its nodes, and the inverse search returns a position at which the table has the requested value whenever one lies within its range.",
  ["histories", "inputs"], "every history of evaluations and inverse searches on every monotone table, including queries at and outside the range",
  "tests evaluate fixed tables at a few points in a fixed order",
  [MATH + "Interpolant.cxx"], [("Interpolate, FindLimit, reverse/starti_ state", MATH + "Interpolant.cxx")],
  "one run = a random history of evaluations, inverse searches and misuse on one table, every answer compared bit for bit with a fresh twin; non-trivial = at least two queries",
  ["Interpolant"], [])

P("P05", "Integration results do not depend on the integrator's history",
  "A numerical integration with given limits, integrand and method returns bit for bit the same value and the same random upper limit on a reused, copied, assigned or swapped integrator as on a fresh one. An integrand that throws, also in the middle of a limit search, leaves the integrator fully usable. No combination of precision settings, limits or failing integrands makes the integrator access memory out of bounds or hang.",
  ["histories", "fault_sequences", "inputs"], "every history of integrations, limit searches, copies, assignments, swaps and failures at any evaluation of the integrand",
  "tests run each integration once on a fresh object and never let an integrand fail",
  [MATH + "Integral.cxx", INC + "math/Integral.h"], [("saved state between Integrate* and GetUpperLimit", MATH + "Integral.cxx")],
  "one run = a random history of integrations (5 methods, with and without random ratio), upper-limit searches, copies, assignments, swaps over several integrators with failing, NaN and nested integrands, each compared bit for bit with a fresh integrator; non-trivial = a comparison after earlier use",
  ["Integral"], ["the integrand (counts its calls, fails at a seeded evaluation)"], runs=5000)

P("P06", "Integrals are accurate and the random upper limit solves its equation",
  "For smooth integrands of one sign a numerical integration agrees with the exact integral within the documented kind of accuracy, and reversing the limits only flips the sign. The upper limit found for a ratio r, or for an absolute target, lies inside the integration interval and the integral up to it is r times the total, or the target. Asking for it again returns the same answer.",
  ["inputs", "histories"], "every interval (also reversed, narrow and empty), method, order of integrator use, ratio in [0, 1] and family of one-signed integrands",
  "tests check a few integrals and a handful of random limits with loose bounds",
  [MATH + "Integral.cxx"], [("IntegrateWithRandomRatio, GetUpperLimit, RefineUpperLimit", MATH + "Integral.cxx")],
  "one run = 1-5 integrations with known antiderivatives on one integrator, some aborted by a failing integrand, values and upper limits compared with the exact solution; non-trivial = a value or limit was compared",
  ["Integral"], ["the integrand (known antiderivative, fails at a seeded evaluation)"], runs=8000)

P("P07", "Energy integrals are additive and their inverse inverts them",
  "The integral of an energy-dependent quantity between two energies (time, range, grammage, interaction or decay probability) equals the exact value within integration accuracy, is additive over adjoining intervals and never negative for a loss function. Its inverse returns the energy, between the lower limit and the start energy, at which the integral reaches the target, and refuses a target that cannot be reached. Neither depends on earlier calls or on earlier failures of the integrated function.",
  ["histories", "inputs", "fault_sequences"], "every start and end energy, reachable and unreachable target, history of calls and failing evaluations",
  "tests evaluate fixed energies on fresh objects; the integrated function never fails",
  [SRC + "propagation_utility/PropagationUtilityIntegral.cxx", MATH + "Integral.cxx"], [("UtilityIntegral::Calculate/GetUpperLimit", SRC + "propagation_utility/PropagationUtilityIntegral.cxx")],
  "one run = a random history of forward and inverse energy integrals with seeded failures of the integrated function, compared with the exact antiderivative and with a fresh object; non-trivial = a value was compared",
  ["UtilityIntegral", "Integral"], ["the integrated energy function (known antiderivative, fails at a seeded evaluation)", _CI], runs=12000)

P("P09", "Decays conserve energy and momentum for every random sequence",
  "Every decay, by any channel, of a parent at rest or in flight, with any sequence of random numbers, yields the channel's products on their mass shells, with unit directions, starting at the parent's position and time, whose energy and momentum add up to the parent's; decays of the built-in particles also conserve charge and lepton number. A random generator that fails in the middle of a decay leaves the channel usable. The same random numbers give the same decay whatever was decayed before. Decays at rest prefer no direction, leptonic decays have their documented energy spectrum, and phase-space decays fill the phase space evenly.",
  ["inputs", "histories", "fault_sequences"], "every channel type and product set, parent mass and energy, direction, random-number sequence (with values near 0 and 1) and history of decays",
  "tests sample a few thousand decays of two or three particles and mostly look at averages",
  [DEC + "DecayChannel.cxx", DEC + "LeptonicDecayChannel.cxx", DEC + "ManyBodyPhaseSpace.cxx", DEC + "TwoBodyPhaseSpace.cxx", SRC + "particle/ParticleDef.cxx", SRC + "particle/Particle.cxx"],
  [("DecayChannel::Boost, Momentum", DEC + "DecayChannel.cxx"), ("GenerateEvent", DEC + "ManyBodyPhaseSpace.cxx"), ("Decay", DEC + "LeptonicDecayChannel.cxx")],
  "one run = a history of decays through random channels or built-in particles under one seeded random stream (edge values, throwing draws), each checked against conservation laws and repeated on a clone; non-trivial = a decay was checked",
  ["decay channels", "particle definitions", "vector algebra"], [_RNG], runs=12000,
  assumptions=["random numbers closer than 1e-9 to 0 or 1 are not injected into phase-space decays (probability below 1e-8 per draw)"])

P("P10", "Decay tables select channels by branching ratio after any history",
  "A decay table built by any sequence of additions, copies, assignments, swaps and resets selects, for a uniform random number, each of its channels with exactly the probability given by its branching ratio over the sum, and never a channel that was not added. Copies compare equal and are independent. An allocation failure during any of these operations leaves every table as it was.",
  ["histories", "fault_sequences", "inputs"], "every sequence of table operations with any branching ratios (also repeated ones) and any failing allocation, every random number in [0, 1)",
  "tests add a few channels with distinct ratios to one table and never fail an allocation",
  [DEC + "DecayTable.cxx", INC + "decay/DecayTable.h"], [("addChannel, SelectChannel, copy/assign/swap", DEC + "DecayTable.cxx")],
  "one run = a random history of table operations with failing allocations; tables are compared with a reference model by asking for the channel at 60 evenly spaced random numbers; non-trivial = a table was compared",
  ["DecayTable", "decay channels"], [_ALLOC], runs=4000)

P("P11", "Random-number checkpoints restore the exact sequence",
  "After seeding or restoring a checkpoint the generator continues with exactly the sequence that follows that seed or checkpoint, in the same or a new process, whatever was drawn in between. A custom generator is used exactly as installed and does not disturb the built-in sequence. A truncated or unreadable checkpoint is never accepted silently and leaves the current sequence untouched.",
  ["histories", "crash_points", "fault_sequences"], "every sequence of draws, seeds, checkpoints, restores, generator changes and damaged checkpoints",
  "tests restore one intact checkpoint once",
  [MATH + "RandomGenerator.cxx", INC + "math/RandomGenerator.h"], [("Serialize/Deserialize, SetSeed, SetRandomNumberGenerator", MATH + "RandomGenerator.cxx")],
  "one run = a random history of draws, seeds, checkpoints, restores (intact and truncated), generator switches and restarts, compared with the recorded reference sequence per seed; non-trivial = draws or restores happened",
  ["RandomGenerator"], ["checkpoint storage (in memory, truncated at a seeded byte)", "custom generator (seeded, may throw)"], runs=12000)

P("P08", "Stochastic and continuous losses partition the same spectrum",
  "For every process, particle, medium and energy cut, the kinematic limits are ordered and leave the particle its rest mass, and the differential cross section inside them is finite and not negative. Losses above the cut make up the interaction rate: the rate of each target and their sum, the cumulative rate at a loss, and the loss sampled for a given rate are the integral of that differential cross section and its inverse. Losses below the cut make up the continuous loss and its fluctuation: both are the corresponding moments of the same spectrum. Nothing is counted twice or left out, multipliers scale all of it, and no answer depends on earlier evaluations, also ones that ran out of memory.",
  ["inputs", "histories", "fault_sequences"], "every process, particle, medium, energy, energy-cut setting (absolute, relative, both, none), random number and history of evaluations",
  "tests compare a grid of stored numbers per parametrization; a cut outside that grid, an interplay of cut and kinematic limit or of two calls is never exercised",
  [SRC + "EnergyCutSettings.cxx", SRC + "crosssection/CrossSectionDNDX/CrossSectionDNDX.cxx", SRC + "crosssection/CrossSectionDNDX/CrossSectionDNDXIntegral.cxx", SRC + "crosssection/CrossSectionDEDX/CrossSectionDEDXIntegral.cxx", SRC + "crosssection/CrossSectionDE2DX/CrossSectionDE2DXIntegral.cxx", INC + "crosssection/CrossSection.h", INC + "crosssection/CrossSectionMultiplier.h", SRC + "crosssection/parametrization"],
  [("GetIntegrationLimits, CalculatedNdx, GetUpperLimit", SRC + "crosssection/CrossSectionDNDX"), ("dEdx below the cut", SRC + "crosssection/CrossSectionDEDX/CrossSectionDEDXIntegral.cxx"), ("GetCut", SRC + "EnergyCutSettings.cxx")],
  "one run = one cross section (process, particle, medium, cut, multiplier) evaluated at 1-4 energies: limits, spectrum, rate, continuous loss, fluctuation, sampling and cumulative rate against an independent quadrature of the parametrization, and against a fresh twin; non-trivial = an energy was evaluated",
  ["parametrizations", "cross sections by integration", "Integral", "media", "particle definitions"], [_ALLOC, _CI], runs=4000, quick_s=240, part="rest",
  assumptions=["tolerances: 3 % (8 % for parametrizations with inner integrals)", "no-cut rates of bremsstrahlung and Berger-Seltzer ionization are infrared divergent and not evaluated", "muon pair production is compared above 10 times its threshold, tau photonuclear interaction above 20 m_tau"])

P("P12", "Users of the same physics objects do not disturb each other",
  "Several users of one process, each with its own random-number state, get bit for bit the results each would get alone in a process of its own, however their calls are interleaved. This holds for cross sections, products, decays, scattering, deflections, densities, volumes, definitions, propagation utilities and integrals that are shared, equal, or differ in a single respect such as medium, particle, cut or argument. A call of another user that fails, runs out of memory or loses its random source, and objects being destroyed and made anew, change nothing either.",
  ["schedules", "inputs", "histories", "fault_sequences"], "every set of users, interleaving of their calls, sharing of objects, random-number state, and failing call, allocation or random source in between",
  "tests make one object, call it, and compare with a table; two objects of a kind alternating in one process, or a call after another one's failure, are never compared with each alone",
  [SRC + "crosssection", SRC + "secondaries", SRC + "decay", SRC + "scattering", SRC + "propagation_utility", SRC + "density_distr", MATH + "Integral.cxx", MATH + "RandomGenerator.cxx"],
  [("tables and caches built on first use", SRC + "crosssection"), ("work arrays of the integrator", MATH + "Integral.cxx"), ("one shared random-number generator", MATH + "RandomGenerator.cxx")],
  "one run = 2-3 users with 2-12 calls each on shared objects in a seeded interleaving with faults and rebuilt objects; the reference is each user alone in a forked process; non-trivial = results were compared",
  ["cross sections (integration)", "secondaries parametrizations", "decay channels", "scattering and deflection models", "density distributions", "geometries", "media, components, particle definitions", "propagation utilities (integration)", "Integral", "RandomGenerator"], [_RNG, _ALLOC, "cross sections in closed form below the propagation utilities", "energy sharing of photon pair production (missing third-party library)"], runs=5000, part="rest",
  assumptions=["users take turns between calls: the library starts no threads and documents no thread safety", "a custom matrix element of a phase-space decay, which draws random numbers on its first use, is excluded"])

P("P13", "Products of an interaction account for its energy and momentum",
  "For every interaction type, primary, target and sequence of random numbers, the products of an interaction are the ones the process has, in the documented order, start at the point and time of the interaction, have finite energies not below their masses and unit directions, and carry together the energy of the primary plus what was taken from the target; the primary keeps its energy minus the loss. Where the kinematics is fixed the momenta add up: two-body processes conserve momentum, a bremsstrahlung emitter recoils against its photon, pairs are back to back in azimuth and everything else stays on the direction of the primary. The products depend only on the interaction and the random numbers given, not on earlier interactions, on the global random generator or on an earlier allocation failure, and a type without a calculator is refused.",
  ["inputs", "histories", "fault_sequences"], "every process, primary, energy, loss, medium component, direction, sequence of random numbers (with values near 0 and 1) and history of interactions",
  "tests check energy sums for a few parametrizations, fixed media and one stream of random numbers",
  [SRC + "secondaries/parametrization", INC + "secondaries/parametrization", INC + "secondaries/SecondariesCalculator.h", SRC + "secondaries/SecondariesCalculator.cxx"],
  [("CalculateSecondaries of each parametrization", SRC + "secondaries/parametrization"), ("dispatch by interaction type", INC + "secondaries/SecondariesCalculator.h")],
  "one run = a history of interactions through one generator, or through a calculator whose generators are replaced on the way, each checked against conservation laws and a fresh twin, with seeded allocation failures; non-trivial = products were checked",
  ["secondaries parametrizations", "parametrizations (limits of the loss)", "media", "particle definitions"], [_RNG, _ALLOC, "energy sharing of photon pair production (tables of a missing third-party library; a seeded number inside its limits)"], runs=3000, quick_s=240, part="rest",
  assumptions=["losses are drawn where the differential cross section is positive", "random numbers exactly 0 are not injected"])

P("P14", "Direction changes are rotations by exactly the sampled angle",
  "Every direction change, single or in a chain of any length, keeps directions finite and of unit length and turns them by exactly the requested angle and azimuth, at the poles as elsewhere. Deflections in stochastic interactions are finite and follow the kinematics and the distribution of their model for every allowed loss; multiple scattering is symmetric, has the documented width and correlation of offset and angle, and does nothing without a path. Results depend only on the arguments: not on earlier calls, cloning, the lifetime of the object cloned from, or the global random generator. A scattering object built from a configuration applies exactly the configured models and multipliers.",
  ["inputs", "histories"], "every direction (also at and near the poles), angle, chain of deflections, interaction type, energy, loss, path, random number (with values near 0 and 1) and configuration",
  "tests use a few fixed directions, energies and one random stream, on fresh objects, and no test calls the deflection models",
  [SRC + "math/Cartesian3D.cxx", SRC + "math/Spherical3D.cxx", SRC + "scattering/multiple_scattering", SRC + "scattering/stochastic_deflection", INC + "scattering/Scattering.h", INC + "scattering/ScatteringMultiplier.h", INC + "scattering/ScatteringFactory.h"],
  [("deflect", SRC + "math/Cartesian3D.cxx"), ("ScatterInitialDirection", SRC + "scattering/multiple_scattering/Parametrization.cxx"), ("CalculateStochasticDeflection", SRC + "scattering/stochastic_deflection")],
  "one run = a history of rotations, coordinate changes and vector operations, of deflections, of multiple scatterings with clones and comparisons, or of calls to a configured scattering object, each against geometry, kinematics, an independent quantile or quadrature and a fresh twin; non-trivial = a direction change was checked",
  ["vector algebra", "scattering models", "scattering factories", "UtilityIntegral", "parametrizations (limits of the loss)"], [_RNG, "cross section in closed form below HighlandIntegral"], runs=8000, part="rest",
  assumptions=["the van Ginneken models are used above 1 GeV for muons; where BremsGinneken reports an undefined state the loss is skipped", "random numbers exactly 0 or 1 are not injected"])

P("P15", "Particle and medium definitions are found as they were defined",
  "A built-in or user-defined particle is found under its type exactly as it was first defined, for the life of the process; a different definition under the same type is refused, the same one is accepted again, and an unknown type is refused. Media and components have the charges, masses, sums and derived quantities of their composition, are found again by name, type or hash unchanged, and are equal exactly when their fields are; unknown names, types and hashes are refused. Energy and momentum of a particle state belong together. Running out of memory during any of these, also in the very first use, changes nothing.",
  ["histories", "inputs", "fault_sequences"], "every order of definitions, repeated definitions, lookups, copies and comparisons, with memory running out at any allocation, starting with the very first use in the process",
  "tests define few particles and media, look few of them up, and never run out of memory",
  [SRC + "particle/ParticleDef.cxx", SRC + "particle/Particle.cxx", SRC + "medium", INC + "particle", INC + "medium"], [("GetParticleDefForType, ParticleDef constructor", SRC + "particle/ParticleDef.cxx"), ("GetMediumForHash, CreateMedium", SRC + "medium/Medium.cxx"), ("Component", SRC + "medium/Components.cxx")],
  "one run = a history of definitions, conflicting definitions, lookups, copies and comparisons of particles (in a process of its own, so that the first use is part of it) or media and components, with seeded allocation failures, against a table of what was defined; non-trivial = a definition or lookup was compared",
  ["particle definitions and states", "media", "components"], [_ALLOC], runs=8000,
  assumptions=["after a definition that ran out of memory the type may be registered or not, until the next successful definition"])

P("P16", "Borders of volumes are met once, in order, at the right distance",
  "From any point along any direction, the distances a volume reports are those to the next border of its material and, from outside or from the cavity of a hollow volume, to the one after it; nothing ahead is reported as nothing. Inside, in front, behind, entering and leaving agree with the distances. A track that steps from border to border meets every border of the volume exactly once and in order. A volume made from a configuration, copied, moved or resized behaves exactly like a fresh one with the same data; a damaged configuration is refused.",
  ["inputs", "histories", "fault_sequences"], "every sphere, box and cylinder (also hollow ones), position, direction, history of changes and configuration",
  "tests place particles in a handful of symmetric situations around volumes at or near the origin and never read a configuration",
  [SRC + "geometry", INC + "geometry"], [("DistanceToBorder", SRC + "geometry/Sphere.cxx"), ("DistanceToBorder", SRC + "geometry/Box.cxx"), ("DistanceToBorder", SRC + "geometry/Cylinder.cxx"), ("IsInside ... GetLocation", SRC + "geometry/Geometry.cxx")],
  "one run = rays, border points and walks from border to border through one volume, a history of volumes that are moved, resized, copied and compared, or a series of configurations (damaged ones among them), against interval arithmetic in long double; non-trivial = a ray met a border or a configuration was read",
  ["geometries", "geometry factory", "vector algebra"], [_ALLOC], runs=12000,
  assumptions=["rays that touch a surface or an edge to within rounding are not judged", "walks and border points are judged where rounding of the position stays below the documented precision of 1e-9"])

P("P17", "Grammage along a track is the integral of the density, and is inverted exactly",
  "For every density distribution, axis, starting point and direction, the grammage over a distance is the integral of the density the distribution reports (along a radial axis: exactly along the radius, otherwise to first order in the distance), it adds up over consecutive pieces, and the distance for a given grammage is its inverse; a grammage that cannot be reached is refused, never answered with a number. A distribution from a configuration, a copy or a clone behaves like the original and does not depend on its lifetime; distributions are equal exactly when type, axis and all parameters are; a damaged configuration is refused.",
  ["inputs", "histories", "fault_sequences"], "every distribution type, axis, parameters, position, direction, distance, grammage and history of copies, comparisons, destructions and failed allocations",
  "tests compare distributions for equality and never evaluate, integrate or invert one",
  [SRC + "density_distr", INC + "density_distr"], [("Calculate, Correct, Integrate, Evaluate", SRC + "density_distr"), ("GetDepth, GetEffectiveDistance", SRC + "density_distr/density_distr.cxx"), ("CreateDensityDistribution", SRC + "density_distr/density_distr.cxx")],
  "one run = a history of distributions that are made (directly or from a configuration), copied, compared, dropped and asked for densities, grammages and their inverse on random tracks, against closed forms in long double; non-trivial = a track was evaluated",
  ["density distributions", "axes", "Polynom", "Spline", "NewtonRaphson"], [_ALLOC], runs=12000,
  assumptions=["grammages are inverted where the density is positive along the track", "polynomial and spline densities are not judged where the depth changes by less than 1e-9 per unit length but not zero"])

P("P18", "Polynomials and splines keep their values through every operation and file",
  "A polynomial or spline takes the values of the function it was built from, after any sequence of copies, assignments, shifts, derivatives, antiderivatives and destructions of other objects. A spline written to a file, text or binary, and read back has the same values; a write that fails is reported, and a file that is missing, truncated or unreadable is refused.",
  ["inputs", "histories", "fault_sequences"], "every coefficient and point set, history of operations, file mode, failing or partial write and read",
  "tests evaluate a few splines at their points and never copy, shift, save or load one under faults",
  [MATH + "Function.cxx", MATH + "Spline.cxx", INC + "math/TableWriter.h"], [("Polynom", MATH + "Function.cxx"), ("Spline::save, operator>>", MATH + "Spline.cxx")],
  "one run = a history of operations on several polynomials, or on several splines with files under a seeded disk-fault plan, against references in long double; non-trivial = a value was compared",
  ["Polynom", "Spline", "TableWriter"], ["disk (write errors, full disk, short and interrupted transfers, failing open and close, truncation)", _ALLOC], runs=12000,
  assumptions=["a file cut inside its very last number cannot be told from a shorter number and is not injected"])

P("P19", "A propagated particle takes exactly the steps its random numbers imply",
  "Propagation starts with the given state and is a sequence of continuous steps, losses and at most a final decay. Every step starts where the previous one ended, points along the (scattered) direction, and covers exactly the grammage of its length in the sector it goes through; it stops at the first of: border of the sector or a nested one, drawn interaction or decay, energy limit, maximal distance. Energy and elapsed time follow from the continuous losses of that sector, are never gained or turned back, and a randomized energy stays within its limits. A loss is the one its random number selects; a deflection applies to its kind. The particle is always in the sector of the highest hierarchy there (the first of equals), also after scattering at a border; outside of all sectors it is refused. The track ends exactly when it decayed, fell below the limit, reached the maximal distance or left the requested hierarchy. The same random numbers give the same track, whatever was propagated, or failed, before.",
  ["inputs", "histories", "fault_sequences"], "every arrangement of nested sectors, density, energy limits, scattering and deflection, initial state, limit and random sequence; histories of propagations with cross sections that throw, memory running out and a random source that fails",
  "tests need the interpolation library, use one or two media, and compare with stored tracks of a few seeds",
  [SRC + "Propagator.cxx", INC + "Propagator.h", SRC + "propagation_utility"],
  [("Propagate, AdvanceParticle, CalculateDistanceToBorder, GetCurrentSector, DoStochasticInteraction", SRC + "Propagator.cxx"), ("PropagationUtility", SRC + "propagation_utility/PropagationUtility.cxx")],
  "one run = up to four propagations through a seeded world of sectors, some of them failing first, repeated later or by a fresh propagator, each replayed step by step from its recorded random numbers against closed forms; non-trivial = a step was replayed",
  ["Propagator", "propagation utilities (integration)", "geometries", "density distributions", "Secondaries", "Scattering (composition)", "vector algebra"], [_RNG, _ALLOC, "cross sections in closed form, which can be made to throw", "multiple scattering and deflection angles in closed form"], runs=16000, part="full",
  assumptions=["energies and lengths are judged to the precision of the integrators (relative 1e-4 of the loss, 1.3e-5 of the energy) and, with scattering, to the documented position resolution", "density distributions are only used where they are positive", "directions almost but not exactly perpendicular to the axis of a density distribution are not judged", "built from hand-made sectors; the interpolation library is missing"])

P("P20", "A recorded track answers queries as its steps imply",
  "A track reports every recorded state, type and target unchanged and in order, its losses are exactly the energy differences between consecutive states, and queries restricted to a type, a name or a volume select exactly the matching ones. The state at an energy or at a distance lies on the recorded step that contains it, with the energy, time, position and direction that the continuous losses along that step imply; beyond the ends it is the first or last state. A volume is hit, entered and left exactly where the recorded path meets it, the energy lost in it is the difference of the states where the path enters and leaves it (or starts and ends in it), and the point of closest approach is the nearest of the whole path. Decay products carry the energy of what decayed. A state that could not be recorded leaves no trace, and a query that fails or is repeated changes nothing.",
  ["inputs", "histories", "fault_sequences"], "every track (steps in several sectors with different media, densities and borders, stochastic losses, deflections, decays), volume, energy, distance and history of queries, with cross sections that throw, memory running out and a random source that fails",
  "tests query one track of one muon in one homogeneous medium, with volumes around the axis",
  [SRC + "Secondaries.cxx", INC + "Secondaries.h", SRC + "propagation_utility/PropagationUtilityIntegral.cxx"],
  [("GetEntryPoint, GetExitPoint, GetClosestApproachPoint, HitGeometry, GetELost", SRC + "Secondaries.cxx"), ("GetStateForEnergy, GetStateForDistance, RePropagateEnergy, RePropagateDistance", SRC + "Secondaries.cxx"), ("UtilityIntegral", SRC + "propagation_utility/PropagationUtilityIntegral.cxx")],
  "one run = the step by step recording of a track through seeded sectors, interleaved with queries, copies and faults, against a model that keeps the steps and knows the continuous losses in closed form; non-trivial = a query that interpolates or intersects was checked",
  ["Secondaries", "propagation utilities (integration)", "geometries", "density distributions", "decay channels", "Integral"], [_RNG, _ALLOC, "cross sections in closed form, which can be made to throw"], runs=3000, part="rest",
  assumptions=["at least the initial state is recorded", "volumes touched by the path to within rounding are not judged", "between the states of a step the energy is integrated to a relative 1e-4; energies that agree to 1e-10 of their logarithm are the same to the integrator"])

P("P21", "Lengths, energies, times and decays follow from the continuous losses",
  "For all energies the length of a continuous loss is the integral of its inverse, adds up over pieces and is inverted by the energy after a length; a length that cannot be covered is refused. The time is the integral of the inverse velocity (or light's, where approximated), never less than light's; the energy of a decay or interaction is where the integral of the decay or interaction rate reaches the drawn exponential value, or the lower limit. A randomized energy has the drawn quantile of the cut-off normal distribution and stays within its limits; a sampled loss belongs to the channel and target that the drawn fraction of the rates selects; the mean free path is the inverse of the sum of the rates. This holds for every random number in [0, 1); tools without decays or randomization draw nothing; incomplete tools are refused. Answers do not depend on earlier calls, on failures in them, or on tools being shared.",
  ["inputs", "histories", "fault_sequences"], "every particle, set of cross sections, energy, random number and history of calls, with cross sections that throw at any evaluation and memory running out",
  "tests compare these quantities with stored tables for a few particles and media and need the interpolation library",
  [SRC + "propagation_utility", INC + "propagation_utility", MATH + "MathMethods.cxx", MATH + "Integral.cxx"],
  [("Interaction, InteractionBuilder, Displacement, DisplacementBuilder, Decay, DecayBuilder, TimeBuilder, ContRandBuilder, PropagationUtility", SRC + "propagation_utility"), ("SampleFromGaussian", MATH + "MathMethods.cxx"), ("Integral::Trapezoid3", MATH + "Integral.cxx")],
  "one run = a history of calls on the utilities of one particle with seeded cross sections, some of them failing first, repeated later or asked of a fresh set, against closed forms and an independent quadrature; non-trivial = a value was compared",
  ["propagation utilities (integration)", "Integral", "MathMethods", "ParticleDef"], [_RNG, _ALLOC, "cross sections in closed form, which can be made to throw"], runs=2500, part="rest",
  assumptions=["integrals are exact to a relative 1e-4 (3e-3 where the momentum vanishes at the lower limit), their inverses to 1.2e-5 of the energy; energies that agree to 1e-10 of their logarithm are the same to the integrator"])

P("P22", "A configuration gives the documented propagator or is refused",
  "A propagator made from a JSON object or file behaves exactly as one assembled in code from what the documentation says the settings mean: a sector's own settings go before the global ones, and those before the documented defaults; names are read regardless of case; cuts, media, densities (also their effect on LPM suppression), geometries, hierarchies, scattering, deflection, their multipliers, exact times, randomization and every interaction with its parametrization, lpm, shadow, hard component and multiplier are those configured. Without a list of interactions a particle gets the documented ones. A configuration that lacks something mandatory, has a value of a wrong type or range or an unknown name, or whose file is missing, cut short or cannot be read, is refused with an exception, and no later configuration is affected.",
  ["inputs", "histories", "fault_sequences"], "every combination of settings at the two levels, every configurable interaction, and every cut, damaged or unreadable file; histories of refused and accepted configurations",
  "tests read two example files; whether each setting at each level reaches the propagation is never compared",
  [SRC + "Propagator.cxx", SRC + "crosssection/Factories", INC + "Propagator.h", SRC + "EnergyCutSettings.cxx", SRC + "scattering/ScatteringFactory.cxx", INC + "crosssection/ParticleDefaultCrossSectionList.h"],
  [("InitializeSectorFromJSON, ParseCutSettings, GlobalSettings, ParseGlobalSettings, CreateCrossSectionList", SRC + "Propagator.cxx"), ("make_bremsstrahlung, make_epairproduction, ... ", SRC + "crosssection/Factories"), ("make_scattering", SRC + "scattering/ScatteringFactory.cxx"), ("GetStdCrossSections", INC + "crosssection/ParticleDefaultCrossSectionList.h")],
  "one run = a history of damaged configurations and one good one, whose tracks are compared with those of a propagator built by hand from the same random numbers; or interactions made from their configuration compared with directly built ones; non-trivial = tracks or values were compared",
  ["Propagator incl. JSON reading", "cross sections (integration)", "factories", "scattering", "geometries", "density distributions", "propagation utilities (integration)"], [_RNG, _DISK], runs=800, part="full", cpu=90,
  assumptions=["do_interpolation is false: the interpolation library is missing", "memory does not run out while a configuration is read: the JSON library allocates in a destructor and terminates"])

def N(id, title, statement, qtext, why, files, mech, reason): NOT_APPLICABLE.append({"id": id, "title": title, "statement": statement, "qtext": qtext, "why": why, "files": files, "mech": mech, "reason": reason})
NOT_APPLICABLE = []
N("P23", "Parametrizations reproduce the published cross sections",
  "Every built-in parametrization gives, for every particle, medium, energy and loss in its documented range, the differential cross section of the publication it is named after.",
  "every parametrization, particle, medium, energy and loss", "tests compare with tables that the code itself produced",
  [SRC + "crosssection/parametrization"], [("DifferentialCrossSection", SRC + "crosssection/parametrization")],
  "a pure function of its arguments: no schedule, time, I/O, randomness or fault to simulate, and the oracle would be the literature; what the parametrizations must satisfy together (limits, signs, rates, continuous losses) is decided in P08")
N("P24", "Interpolated cross sections agree with integrated ones",
  "With interpolation switched on every rate, continuous loss, fluctuation and propagation quantity agrees with the integrated one to the precision of the tables, and tables written to disk are read back only for the configuration they were built for.",
  "every cross section, interpolation setting, table directory and crash while tables are written", "tests compare single values, and only where the interpolation library is installed",
  [SRC + "crosssection/CrossSectionDNDX/CrossSectionDNDXInterpolant.cxx", SRC + "crosssection/CrossSectionDEDX/CrossSectionDEDXInterpolant.cxx", SRC + "propagation_utility/PropagationUtilityInterpolant.cxx"], [("interpolation tables", SRC + "crosssection")],
  "tables, their files and their lookup are code of the third-party library CubicInterpolation, which is not installed here and cannot be fetched: simulating the stand-in would decide nothing about the shipped behaviour; the library's own tables (Interpolant) are decided in P01 to P04")
N("P25", "Python users get the same answers as C++ users",
  "Every function of the Python module returns what the C++ function returns, keeps its arguments alive as long as needed and turns C++ exceptions into Python exceptions.",
  "every bound function, argument and object lifetime", "tests of the module are not part of the stable suite",
  ["src/pyPROPOSAL"], [("bindings", "src/pyPROPOSAL")],
  "the bindings need pybind11, which is not installed and cannot be fetched, so the module cannot be built offline")
N("P26", "Several threads can use the library at once",
  "Threads that use separate objects do not disturb each other.",
  "every interleaving of threads", "tests are single-threaded",
  [MATH + "RandomGenerator.cxx", SRC + "medium/Components.cxx"], [("process-wide generator and registries", MATH + "RandomGenerator.cxx")],
  "the library starts no threads, has no locks and promises no thread safety (one generator and registries filled on first use serve the whole process), so there is no such guarantee to decide; users that take turns in one thread are decided in P12")
