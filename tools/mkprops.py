#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the lines stay well-formed)."""
import json
P=[]
def prop(id,title,statement,over,text,why,files,mech,observe,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":None}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append(dict(id=id,title=title,statement=statement,quantifier={"over":over,"text":text},why_tests_cant=why,anchors=a))

prop("C01","Surfaces answer containment and ray distance like the ideal quadric",
 "For every sphere, plane perpendicular to x and cylinder around x that an input can define, a point is reported inside exactly when it lies strictly on the negative side of the ideal surface. For every ray, the reported distance is the smallest strictly positive distance at which the ideal line meets the surface, and infinity when there is none (a tangent ray counts as none). Points closer to the surface than floating-point rounding are not decided.",
 ["inputs"],"every surface of the three kinds with any centre, offset and radius; every point; every unit direction, including near-tangent, axis-parallel, inside, outside and on-surface starts",
 "The tests try a handful of hand-picked rays against one or two spheres; planes and cylinders have no test at all, and the claim ranges over a continuum of surfaces and rays.",
 ["src/CSGSurface.cpp","src/CSGSurface.hpp","src/Point.cpp"],
 [("per-surface Contains / Distance and the cancellation-free quadratic solver","src/CSGSurface.cpp")],
 ["surface objects created from an XML surfaces node"])
prop("C02","Every point is located in the first listed region that contains it",
 "Locating a point returns the first region in input order for which the point is on the required side of every bounding surface, and reports an error when no region contains it. From a point in a region, the nearest bounding surface is the region's own surface with the smallest positive distance along the ray, and that distance is returned with it. Surfaces, nuclides and estimators looked up by name are the ones the input defines under that name, and an unknown name is an error.",
 ["inputs","configurations"],"every set of surfaces and regions (nested, overlapping, with gaps, shared surfaces, either sense) and every query point and direction",
 "The tests locate a few points in one fixed four-region input; region order, overlaps, gaps and shared surfaces are never varied.",
 ["src/Cell.cpp","src/World.cpp","src/CSGSurface.cpp"],
 [("Cell::Contains / NearestSurface","src/Cell.cpp"),("World::FindCellContaining and the name lookups","src/World.cpp")],
 ["World built from XML"])
prop("C03","A free-flying particle crosses the regions in geometric order, each surface once",
 "A particle that flies through any arrangement of regions without colliding crosses exactly the surfaces that its straight line crosses, in geometric order, until it enters void, where its history ends. Every surface tally therefore counts each geometric crossing of that surface bounding the region being left exactly once, and no particle is lost, stuck, double-counted or carried through a surface. This holds for both tracking methods and wherever the geometry sits relative to the origin.",
 ["inputs","configurations"],"every nested/stacked region arrangement of spheres, planes and cylinders, every source position and direction, both tracking methods, coordinates from millimetres to many metres",
 "The tests run one sphere around one point source; multi-region flights, crossings back and forth, off-origin geometry and the delta-tracking path are not exercised.",
 ["src/TransportMethod.cpp","src/Cell.cpp","src/World.cpp","src/Constants.hpp","src/Estimator.cpp"],
 [("move to the surface plus a nudge, then locate again","src/TransportMethod.cpp"),("crossing/leak events and the surface tally","src/Estimator.cpp")],
 ["surface-current tallies after solving a generated input"],
 [("current surface","surface crossed last","src/Particle.hpp")])
prop("C04","Directions stay unit vectors; deflections have the requested cosine",
 "Every constructed, sampled or scattered flight direction has unit length. Deflecting a direction by a cosine and an azimuth gives a direction whose cosine with the original is the requested one, and whose azimuth around the original advances one-to-one with the requested azimuth, whatever the original direction. Isotropically sampled directions are uniform on the sphere, and vector sums, differences, scalings, dot and cross products obey the usual algebra.",
 ["inputs"],"every vector, every unit direction including those along or near each coordinate axis, every cosine in [-1,1], every azimuth, every generator state",
 "The tests rotate a few fixed vectors and check a couple of dot products; the direction space, the near-axis switch-over and the sampled distribution are continuous.",
 ["src/Point.cpp","src/Point.hpp","src/Constants.hpp","src/Particle.cpp"],
 [("orthonormal frame built from an axis not parallel to the direction","src/Point.cpp")],
 ["Point and Direction API","Particle scatter"])
prop("C05","Source particles follow the specified source distributions",
 "Every source particle starts at the given position with the given energy or group and particle type. Its direction is exactly the normalised constant direction, or uniform on the sphere for an isotropic source, or cosine-weighted (density proportional to the cosine, never backwards, uniform in azimuth) about the reference direction for an isotropic-flux source. The particle drawn for a given seed is always the same, and different seeds give different streams.",
 ["inputs","configurations"],"every position, direction specification, energy, type and seed",
 "The tests use one isotropic point source and look only at a leakage total; the isotropic-flux source and the distributions themselves are untested.",
 ["src/Source.cpp","src/Source.hpp","src/Point.cpp"],
 [("distribution objects sampled in a fixed order from a seed-keyed generator","src/Source.cpp")],
 ["Source::Sample","surface-current tallies binned in cosine"])
prop("C06","Results do not depend on the number of threads or their interleaving",
 "Solving the same input with the same seed gives the same tallies and the same standard deviations whatever the number of worker threads, however the workers interleave, and on every repetition: identical counts, and sums that differ by no more than the rounding of a reordered sum. Workers share no unsynchronised mutable state while histories run. Exactly the requested number of histories is run, no more and no less, even when there are more threads than histories.",
 ["schedules","configurations","inputs"],"every thread count (also far above the number of histories), every interleaving of workers, every seed and history count",
 "The tests run one input with two threads and check an expected mean within a tolerance; they cannot see lost or repeated histories or a data race that a different schedule would expose.",
 ["src/FixedSource.cpp","src/Driver.cpp","src/Scorable.cpp","src/Estimator.cpp"],
 [("atomic history counter, per-thread estimator copies, merge at the end","src/FixedSource.cpp")],
 ["estimator text of solved runs","ThreadSanitizer reports"],
 [("history counter","next history to start","src/FixedSource.hpp")])
prop("C07","A history is a pure function of its seed: runs add up over seed windows",
 "History number k of a run started with seed s behaves the same as history 0 of a run started with seed s+k. Hence the summed tallies of a run of a+b histories equal those of a run of a histories plus those of a run of b histories whose seed is advanced by a, and the default seed is 1. Adding, removing or reordering tallies, changing their bins or sensitivities, or adding unused surfaces, nuclides and materials to the input never changes the histories.",
 ["inputs","histories","configurations"],"every seed, every split of a run, every set of additional tallies or unused definitions",
 "Each test runs a single seed and a single history count, so state leaking from one history into the next, or from tallies into transport, is invisible.",
 ["src/FixedSource.cpp","src/Source.cpp","src/Particle.cpp","src/Bank.cpp","src/Scorable.cpp"],
 [("seed + history index seeds each source particle; secondaries are seeded from their parent","src/FixedSource.cpp")],
 ["tallies of solved runs"])
prop("C08","Tally bins partition the whole axis and each score lands in exactly one bin",
 "For every linear, logarithmic or explicit-boundary axis, the bins are: everything below the first boundary, the half-open intervals between consecutive boundaries, and everything from the last boundary up; every value, including negative and extreme ones, belongs to exactly one of them and the printed boundaries are those in force. Combined cosine and energy binning sends a particle to the combination of its own cosine bin (about the given reference direction, of any length) and energy bin, distinct combinations never share a slot, and an absent axis counts as a single bin. Logarithmic axes use the given base (10 by default) and exponents.",
 ["inputs","configurations"],"every axis specification (bounds, bin counts, bases, boundary lists), every combination of axes, every particle energy, group and direction",
 "No test constructs a binned tally at all.",
 ["src/Bins.cpp","src/Bins.hpp","src/Scorable.cpp"],
 [("per-axis index and stride flattening","src/Bins.cpp")],
 ["ParticleBins size/index/text","binned tallies of solved runs"])
prop("C09","Tally means and standard deviations are the statistics of per-history scores",
 "For every tally bin, the reported mean is the sum over histories of that history's total score in the bin divided by the number of histories, and the reported standard deviation is the square root of (sum of squared per-history totals minus squared sum over N) divided by N, where everything one source particle and its descendants score in a bin counts as one history total. Bins no history scored in report zero for both. A history that scores a bin many times still counts as one sample of its total.",
 ["inputs","histories","configurations"],"every input, every number of histories, every pattern of multiple scores per history (re-crossings, fission descendants) and every binning",
 "The tests look only at one mean with one score per history; squared sums, repeated scores in one history and binned scores are never checked.",
 ["src/Scorable.cpp","src/Estimator.cpp","src/FixedSource.cpp"],
 [("pending per-history scores committed once per history","src/Scorable.cpp")],
 ["estimator scores and text of solved runs"])
prop("C10","The report states every tally in input order with bins, means and deviations",
 "Running the program on an input writes a file of the same name with extension out that starts with the number of histories and then gives, for every tally of the input in order, its name, its cosine and energy boundaries, one mean and one standard deviation per bin in bin order, and the same for each of its sensitivities, agreeing with the in-memory results to the printed precision. Merging two sets of results adds the scores and squared scores bin by bin, whatever the order in which the tallies appear. Copies of a result set are independent of the original.",
 ["inputs","configurations"],"every combination of tallies, bins and sensitivities and every input file name",
 "No test runs the program end to end, parses the report or merges results.",
 ["src/minimc.cpp","src/Estimator.cpp","src/Scorable.cpp","src/Sensitivity.cpp","src/Bins.cpp"],
 [("EstimatorSet::to_string and the output file","src/Estimator.cpp, src/minimc.cpp")],
 ["<input>.out of the command-line program","EstimatorSet copy/merge"])
prop("C11","Multigroup data mean what the input says",
 "For every multigroup nuclide and incident group, the total cross section is the sum of its reaction cross sections (a scatter reaction's being the sum of its matrix column for that group), and a collision selects each reaction, and each outgoing scatter or fission group, with the tabulated probability, where matrices are listed row by row with rows the outgoing group and columns the incident group. Scattered and fission-born particles are isotropic; a fission yields the integer below or above the tabulated average so that the average is kept, and ends the incident particle. Capture ends the particle, and a scattered particle survives with only its group and direction changed.",
 ["inputs","configurations"],"every group count, every non-negative table (with zeros, impossible groups, unnormalised spectra), every incident group, neutrons and photons",
 "The tests read back a few totals from fixed tables; no test samples a reaction, an outgoing group or a fission yield.",
 ["src/Multigroup.cpp","src/Multigroup.hpp","src/Nuclide.cpp","src/Interaction.cpp"],
 [("column-wise scatter matrix, normalised columns, cumulative sampling","src/Multigroup.cpp")],
 ["Nuclide total and interact calls"])
prop("C12","Fixed-source runs solve the transport problem the input describes",
 "For every fixed-source input, multigroup or continuous-energy, the expected value of every surface-current tally bin (net of nothing: each crossing of the surface in either direction counts one) equals that of the exact linear transport problem: exponential free paths with the local macroscopic cross section, collisions by the local nuclide mixture, history ending on capture, fission or entry into void. In particular uncollided leakage equals the exponential of minus the optical thickness. This holds for one or several regions and materials, and for both tracking methods.",
 ["inputs","configurations"],"every geometry, material, cross-section set, source and tally; both tracking methods",
 "The one physical test is a one-region pure absorber; scattering, several regions, several nuclides, groups and the second tracking method are not compared with anything.",
 ["src/TransportMethod.cpp","src/Particle.cpp","src/Material.cpp","src/Multigroup.cpp","src/FixedSource.cpp"],
 [("flight-length sampling against the nearest surface, nuclide and reaction selection","src/TransportMethod.cpp, src/Particle.cpp")],
 ["tallies of solved runs, against analytic answers and an independently written reference simulation"])
prop("C13","Delta tracking is exact where properties vary inside a region",
 "With a temperature that varies inside a region, cell-delta tracking gives the same expected tallies as the exact transport problem whose cross section at each point is the one for the local temperature at that point. Where the temperature is uniform it gives the same expected tallies as surface tracking. Surface tracking of a globally varying temperature is refused with an error.",
 ["inputs","configurations"],"every linear temperature field, material with temperature-dependent scattering, source and tally",
 "No test runs delta tracking, and none has a temperature field that varies.",
 ["src/TransportMethod.cpp","src/Continuous.cpp","src/ContinuousReaction.cpp","src/ScalarField.cpp"],
 [("rejection of virtual collisions against the in-cell majorant","src/TransportMethod.cpp")],
 ["tallies of solved runs; leakage against a line integral of the local cross section"])
prop("C14","The majorant is never below the total cross section anywhere in the region",
 "For every nuclide and material, every particle energy and every temperature between the region's declared lower and upper bound, the majorant cross section reported for the region is at least the total cross section at that temperature (to rounding), so the real-collision probability is a probability. Where nothing depends on temperature the two are equal.",
 ["inputs","configurations"],"every nuclide (multigroup, continuous, free-gas-adjusted), energy, evaluated temperature and temperature field with valid bounds",
 "The tests never compute a majorant; the claim ranges over all energies and temperatures.",
 ["src/Continuous.cpp","src/ContinuousReaction.cpp","src/Material.cpp","src/Nuclide.cpp","src/Multigroup.cpp"],
 [("majorant evaluated at the upper temperature bound","src/Continuous.cpp, src/ContinuousReaction.cpp")],
 ["material and nuclide majorant/total queries"])
prop("C15","Nuclear-data files are read and interpolated faithfully",
 "Reading a data file of the documented layout and addressing it with one index per axis returns the value stored for that grid point, for one, two or three axes of any lengths; a wrong number of axes, a missing file or an index past the end of an axis is reported as an error. A table read as a function returns the stored value at a grid point, interpolates linearly between neighbours, and holds the end values outside the grid, also when nested.",
 ["inputs","fault_sequences"],"every grid shape and content, every index tuple including out-of-range ones, every query point, missing or wrong-rank files",
 "The data files of the repository are absent placeholders, so the tests of this reader cannot run; even with them they would sample one file.",
 ["src/HDF5DataSet.hpp","src/ContinuousMap.hpp","src/ContinuousEvaluation.cpp"],
 [("stride computation, clamped linear interpolation","src/HDF5DataSet.hpp, src/ContinuousMap.hpp")],
 ["HDF5DataSet and ContinuousMap API on synthesised files"])
prop("C16","Continuous-energy cross sections and reaction choice follow the evaluated data",
 "A continuous-energy nuclide's reaction cross sections are its tables interpolated at the particle energy; its total is its total table when that was evaluated within one percent of the local temperature, and otherwise the sum of its reactions. Scattering data evaluated more than one percent away from the local temperature are rescaled by the free-gas temperature correction for neutrons, whenever the target is no heavier than a neutron or the energy is below 500 kT over the mass ratio, and are used as they are otherwise. A collision selects each reaction with probability proportional to its local cross section; capture ends the history, and fission ends it and yields the tabulated average number of isotropic secondaries.",
 ["inputs","configurations"],"every table, energy (inside, outside and on grid points), evaluated and local temperature, mass ratio and particle type",
 "The nuclide tests need data files the repository does not ship and cover two energies at most.",
 ["src/Continuous.cpp","src/ContinuousReaction.cpp","src/ContinuousEvaluation.cpp"],
 [("validity test, free-gas adjustment, cumulative reaction choice","src/Continuous.cpp, src/ContinuousReaction.cpp")],
 ["nuclide total and interact calls on synthesised data"])
prop("C17","Free-gas scattering conserves kinematics and has the free-gas distribution",
 "A neutron that scatters off a nuclide without thermal-scattering data leaves with the joint distribution of outgoing energy and angle of an elastic, centre-of-mass-isotropic collision with a target whose velocity is Maxwellian at the local temperature, weighted by relative speed. Every outcome has finite positive energy, a unit direction and the same position, and the particle stays alive. In the limit of a cold or very slow target relative to the neutron, the outgoing energy lies between the elastic minimum and the incident energy with the two-body angle–energy relation.",
 ["inputs"],"every mass ratio, energy, temperature, direction and generator state",
 "No test scatters a continuous-energy neutron.",
 ["src/ContinuousReaction.cpp","src/Particle.cpp","src/Point.cpp","src/Constants.hpp"],
 [("target-velocity rejection sampling and centre-of-mass rotation","src/ContinuousReaction.cpp")],
 ["interact calls, against an independently sampled reference distribution"])
prop("C18","Thermal scattering cross sections interpolate their expansion bilinearly",
 "Below the cutoff energy (the last energy of the thermal table) a neutron's scattering cross section in a nuclide with thermal-scattering data is the bilinear interpolation, in energy and local temperature, of the tabulated expansion; outside the tabulated temperatures the nearest tabulated temperature is used, and below the lowest energy the lowest energy is used. At or above the cutoff, and for photons, the ordinary data apply. The majorant below the cutoff is the tabulated majorant interpolated in energy. A library whose incident energies or energy transfers do not increase is not accepted.",
 ["inputs","configurations"],"every expansion order, grid, energy and temperature inside and outside the grid",
 "The thermal-scattering test depends on data files that the repository does not ship and samples a few energies.",
 ["src/ThermalScattering.cpp","src/ThermalScattering.hpp","src/ContinuousReaction.cpp","src/Continuous.cpp"],
 [("reconstruction from expansion coefficients and bilinear interpolation","src/ThermalScattering.cpp")],
 ["nuclide total/majorant on synthesised thermal data"])
prop("C19","Thermal scattering outcomes are kinematically possible and follow the tables",
 "A thermally scattered neutron leaves with non-negative energy and a scattering cosine between -1 and 1, at the same position and alive. Its energy transfer follows the tabulated cumulative distribution at the local temperature, with the incident-energy table chosen by stochastic linear interpolation and unreachable downscatter rejected; its momentum transfer follows the tabulated distribution conditional on the energy transfer, restricted and rescaled to the kinematic limits, with the table chosen by stochastic linear interpolation between the neighbouring tabulated energy transfers. Temperatures outside the table use the nearest tabulated temperature.",
 ["inputs"],"every thermal table, partitioning, incident energy below the cutoff, temperature and generator state",
 "The tests for this need data files that the repository does not ship, and no test compares a sampled distribution.",
 ["src/ThermalScattering.cpp","src/ThermalScattering.hpp","src/Constants.hpp"],
 [("beta then alpha sampling on partitioned expansions","src/ThermalScattering.cpp")],
 ["interact calls on synthesised thermal data, against an independent sampler"])
prop("C20","Mixtures combine nuclides by atom fraction",
 "A material's microscopic total and majorant are the atom-fraction-weighted averages of its nuclides', with fractions normalised to one whatever their input scale and order, and its mean free path is one over (atom density times total). A collision in it involves each nuclide with probability proportional to its fraction times its cross section at the particle's energy. Splitting a nuclide into identical copies whose fractions add up, or scaling all fractions, changes nothing.",
 ["inputs","configurations"],"every number of nuclides, fractions of any scale, densities, groups and energies",
 "The tests look at single-nuclide materials and missing names only.",
 ["src/Material.cpp","src/Particle.cpp","src/TransportMethod.cpp"],
 [("normalised atom fractions, cumulative nuclide choice","src/Material.cpp, src/Particle.cpp")],
 ["material totals, nuclide choice, leakage tallies"])
prop("C21","Sensitivity tallies are the derivative of the tally they belong to",
 "For every surface tally, the sensitivity to a perturbed nuclide's total cross section is the tally weighted, particle by particle, with the accumulated logarithmic derivative of its flight probabilities in materials containing the nuclide, binned like the tally itself. Flights through materials without the nuclide contribute nothing, each perturbation and each tally is accounted for separately, and the estimate for one history never carries over into another.",
 ["inputs","configurations","histories"],"every set of perturbations and tallies, region arrangement, material composition and density",
 "No test defines a perturbation or a sensitivity.",
 ["src/Perturbation.cpp","src/Sensitivity.cpp","src/Estimator.cpp","src/Particle.cpp"],
 [("indirect effects accumulated per flight and multiplied into the tally score","src/Perturbation.cpp, src/Sensitivity.cpp")],
 ["sensitivity section of the report, against closed forms"])
prop("C22","Malformed input is refused with an error message, never accepted or crashing",
 "Every input file that violates the published schema is refused with a catchable error carrying a message before any history is run. So is every input that satisfies the schema but whose regions, tallies or perturbations use a surface, material, nuclide, perturbation or data file that does not exist, that lists the wrong number of group values, gives bin boundaries that are not finite increasing numbers, lacks data of the transported particle type, or whose source has no particle type, one that is not transported, a group that does not exist, or a position in no region with a material. A valid input is accepted, and in any equivalent form (order of independent elements, white space, comments, character references) runs like the original. The message says where the file breaks the schema (file and line) or which name is not defined. Refusal never takes the form of a crash, an abort inside the library, or silent acceptance.",
 ["inputs","configurations","fault_sequences"],"every single or combined defect of the listed kinds applied to any valid input",
 "The tests cover six hand-written malformed files; the space of malformed inputs is combinatorial, and for several of the listed defects no test exists.",
 ["src/XMLDocument.cpp","src/World.cpp","src/CSGSurface.cpp","src/Material.cpp","src/Multigroup.cpp","src/Bins.cpp","src/Perturbation.cpp","src/Estimator.cpp","src/HDF5DataSet.hpp","src/ThermalScattering.cpp"],
 [("schema validation followed by checks in object construction","src/XMLDocument.cpp and the constructors")],
 ["driver creation from a file"])
prop("C23","Every fission descendant is transported exactly once within its history",
 "In a fixed-source run every secondary particle banked by a fission (whatever particle caused it) is a neutron that starts at the fission point, is transported exactly once within the history of its ancestor source particle, and its scores belong to that history; a run ends for every subcritical input. Consequently tallies of multiplying systems have the mean and the history-to-history variance of the corresponding branching process. No secondary is lost, duplicated, or handed to another history.",
 ["inputs","histories","schedules"],"every subcritical multiplying input, fission yield (zero, fractional, many), chain length and thread count",
 "No test runs a multiplying system to completion.",
 ["src/FixedSource.cpp","src/Particle.cpp","src/Bank.cpp","src/Multigroup.cpp"],
 [("history bank drained before the history is committed","src/FixedSource.cpp")],
 ["tallies and deviations of solved runs, against branching-process moments"],
 [("bank","unfinished particles of the current history","src/Bank.hpp")])
prop("C24","Every valid input runs to completion with finite, conservative results",
 "Every input of the supported kinds whose regions cover space and whose source lies in a material region runs to completion without memory errors or undefined behaviour. All reported means and deviations are finite and non-negative, and particle balance holds: without multiplication, each history leaks at most once, and with only scattering it leaks exactly once. Repeating the run gives the identical report.",
 ["inputs","configurations"],"every combination of geometry, data kind, tracking method, source, tallies and thread count",
 "The tests run two inputs; combinations of features are not exercised and no test runs under sanitizers.",
 ["src/FixedSource.cpp","src/TransportMethod.cpp","src/Particle.cpp","src/Estimator.cpp","src/Bins.cpp"],
 [("the history loop and its event machine","src/FixedSource.cpp, src/TransportMethod.cpp")],
 ["solved runs and command-line runs under AddressSanitizer/UBSan"])
prop("C25","Temperatures are those the input assigns",
 "A region's temperature at a point is its own constant temperature when it has one, otherwise the global field at that point: the given constant, the given gradient and intercept, or room temperature (293.6 K) when the input has no field. A field reports the declared bounds (a constant's being the constant) and whether it is uniform, and physics queries in the region use exactly this temperature.",
 ["inputs","configurations"],"every constant or linear field, per-region override and query point",
 "No test defines a temperature field or a region temperature other than the default.",
 ["src/ScalarField.cpp","src/Cell.cpp","src/World.cpp"],
 [("region override of the global field","src/Cell.cpp, src/World.cpp, src/ScalarField.cpp")],
 ["region temperature queries and temperature-dependent cross sections"])
prop("C26","Equivalent descriptions of a problem give equivalent results",
 "Results depend on the physical problem and not on how the input describes it. Expressing lengths in another unit (with densities adjusted), renaming or reordering definitions that do not overlap, rescaling direction vectors or atom fractions, stating the same temperature globally, per region or as a flat field, exchanging the data and the name of the two particle types, mirroring, turning about the x axis or moving along it, cutting a region by a fictitious surface, renumbering energy groups or refining them into copies, adding interpolation points to a data table, or giving energy-independent data as one group or as continuous data: each leaves the expected tallies (laid out accordingly) unchanged.",
 ["inputs","configurations"],"every supported fixed-source problem and every such change of its description",
 "A test looks at one description of one problem; whether two descriptions agree is a relation between runs over all problems, and the tests contain no such pair.",
 ["src/World.cpp","src/Cell.cpp","src/CSGSurface.cpp","src/TransportMethod.cpp","src/Material.cpp","src/Multigroup.cpp","src/Continuous.cpp","src/ContinuousReaction.cpp","src/ScalarField.cpp","src/Estimator.cpp","src/Bins.cpp"],
 [("whole transport of a fixed-source problem","src/FixedSource.cpp, src/TransportMethod.cpp"),("definitions resolved by name","src/World.cpp, src/Material.cpp")],
 ["tallies of pairs of solved inputs"])
prop("C27","Histories, and the random decisions within them, are independent",
 "Different histories of a run are statistically independent of each other, so that the reported standard deviation is the actual scatter of the mean over runs with different seeds. Within a history the direction of the source particle, the flight lengths, the collided nuclides, the outgoing directions and groups of successive collisions, and the directions, groups and later fates of the neutrons born in one fission are independent of each other: no random number decides two things.",
 ["histories","inputs","configurations"],"every run seed, pair of histories, pair of decisions in a history, fission yield and kind of nuclear data",
 "Unit tests look at means of one seeded run; shared or shifted random streams leave means untouched and show only in joint distributions over many seeds.",
 ["src/Source.cpp","src/Particle.cpp","src/FixedSource.cpp","src/Multigroup.cpp","src/ContinuousReaction.cpp","src/BasicTypes.hpp"],
 [("a history's generator is scrambled from run seed plus history number","src/Source.cpp, src/FixedSource.cpp"),("a secondary's generator is scrambled from its parent's","src/Particle.cpp")],
 ["joint distributions of sampled source particles, collision outcomes and secondaries, and of tallies of solved runs"],
 [("rng","generator of one particle","src/Particle.hpp")])
import os
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for p in P: f.write(json.dumps(p)+"\n")
try:
    import jsonschema
    s=json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for p in P: jsonschema.validate(p,s); assert len(p["title"])<=80,p["id"]
except ImportError: pass
print(len(P),"properties")
