import json
P=[]
def prop(id,title,statement,over,qtext,why,files,mech,observe,state=None,hook=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=hook)))
S='src/'
prop('C01','Point location agrees with the constructive geometry of the input',
 "The region reported for a position is the first region, in input order, on whose stated side of every bounding surface the position lies; a position exactly on a surface counts as being on its positive side. A position that lies in no region is reported as an error instead of being given a region.",
 ['inputs','configurations'],"every position and every geometry of spheres, axis-normal planes and axis-parallel cylinders with any senses, offsets, radii and nesting",
 "tests look up a handful of points in one geometry of two concentric origin-centred spheres; planes and cylinders are never combined with regions",
 [S+'CSGSurface.cpp',S+'Cell.cpp',S+'World.cpp'],[('CSGSurface::Contains',S+'CSGSurface.cpp'),('Cell::Contains',S+'Cell.cpp'),('World::FindCellContaining',S+'World.cpp')],['World::FindCellContaining'])
prop('C02','Ray tracing finds the nearest boundary in the direction of flight',
 "From any position inside a region, the reported distance to each bounding surface is the smallest strictly positive solution of the surface equation along the unit flight direction, and infinite when there is none or the ray only touches the surface. The reported nearest boundary is the one with the smallest such distance.",
 ['inputs','configurations'],"every position, unit direction and surface (inside, outside, tangent, parallel, behind, far away)",
 "tests evaluate distances for a few axis-aligned rays; the quadratic's sign branches and combinations of several surfaces are not sampled",
 [S+'CSGSurface.cpp',S+'Cell.cpp'],[('CSGSurface::Distance, SolveQuadratic',S+'CSGSurface.cpp'),('Cell::NearestSurface',S+'Cell.cpp')],['CSGSurface::Distance','Cell::NearestSurface'])
prop('C03','Random walks consist of legal flights, collisions, crossings and one end',
 "Every step of a particle's walk is a straight flight along its current direction that ends either at a collision before the nearest boundary of the region it is in or at exactly that boundary, after which it is in the region on the other side; a particle exactly on a surface is on the side it is headed to. Direction and energy change only in scattering, and the walk ends exactly once, on capture, on fission, or on entering a void, and for no other reason.",
 ['histories','configurations','inputs'],"every random walk in every geometry, material and tracking mode",
 "tests check only averaged leakage of two trivial problems; single steps of a walk are never inspected",
 [S+'TransportMethod.cpp',S+'Particle.cpp',S+'Multigroup.cpp'],[('SurfaceTracking::Transport, CellDeltaTracking::Transport',S+'TransportMethod.cpp'),('Particle::Stream, Particle::IsAlive',S+'Particle.cpp')],['every scored event of every particle'],
 [dict(name='position, direction, energy, region, event',meaning='state of one particle',where=S+'Particle.hpp')],'observer notified at each scored event')
prop('C04','Every boundary crossing is completed and registered exactly once',
 "When a particle crosses a boundary it ends up in a region whose definition its position satisfies and which is not the region it left, so that the same boundary is never crossed twice in a row without the particle having moved to its other side and no crossing is lost. This holds whatever the magnitude of the coordinates.",
 ['histories','inputs','configurations'],"every crossing in every random walk, for problem sizes from fractions of a centimetre to kilometres",
 "tests use unit-sized problems and average many histories, so that a small fraction of repeated crossings is invisible",
 [S+'TransportMethod.cpp',S+'Constants.hpp',S+'World.cpp'],[('stream beyond the surface, look up the new region',S+'TransportMethod.cpp'),('nudge',S+'Constants.hpp')],['position and region after each crossing event'],None,'observer notified at each scored event')
prop('C05','Free flight lengths follow the exponential attenuation law',
 "In a region with material, the distance to the next collision is exponentially distributed with rate equal to the material's atom density times its total microscopic cross section at the particle's energy, independently of earlier flights, cut off by the nearest boundary. Where the rate is zero the particle always reaches the boundary.",
 ['inputs','configurations','histories'],"every material, energy, region size and tracking mode, every value of the underlying random number",
 "tests compare one leakage fraction with e^-1 within a few percent; rates for other materials, energies and successive flights are not compared",
 [S+'TransportMethod.cpp',S+'Material.cpp'],[('sampled distance to collision',S+'TransportMethod.cpp'),('Material::GetMicroscopicTotal',S+'Material.cpp')],['length of every flight'],None,'externally supplied random numbers')
prop('C06','Collision outcomes occur with the probabilities given by the data',
 "At a collision the nuclide is chosen with probability proportional to atom fraction times total cross section at the incoming energy, the reaction with probability proportional to its cross section, and the outgoing group after scattering from the incoming group's column of the scattering matrix, with isotropic outgoing direction. Outcomes whose data are zero never occur.",
 ['inputs','configurations'],"every nuclide mixture, number of groups, group, cross section set and particle type, every value of the underlying random numbers",
 "tests check the totals of one two-group nuclide; which outcome is selected for a given random number is never enumerated",
 [S+'Particle.cpp',S+'Multigroup.cpp',S+'Material.cpp',S+'Nuclide.cpp'],[('Particle::SampleNuclide',S+'Particle.cpp'),('Multigroup::Interact, Scatter',S+'Multigroup.cpp')],['event and state after each collision'],None,'externally supplied random numbers')
prop('C07','Fission yields the right neutrons and every secondary is simulated once',
 "A fission produces either the integer part of the mean yield at the incoming energy or one more, with mean equal to that yield, each secondary a neutron starting at the fission site in an isotropic direction and with an energy from the fission spectrum of the incoming group. Every secondary, of every generation, is transported exactly once, as part of the history that created it, before that history's results are recorded.",
 ['histories','inputs','configurations'],"every fissionable mixture, incoming energy, multiplicity and depth of the family tree, every value of the random numbers",
 "no test runs a problem with fission and examines secondaries",
 [S+'Multigroup.cpp',S+'Particle.cpp',S+'Bank.cpp',S+'FixedSource.cpp'],[('Multigroup::Fission',S+'Multigroup.cpp'),('Particle::BankSecondaries, MoveSecondariesTo',S+'Particle.cpp'),('Bank',S+'Bank.cpp'),('loop until the bank is empty',S+'FixedSource.cpp')],['banked secondaries','start of every walk','commit of every history'],
 [dict(name='secondaries',meaning='particles created but not yet transported',where=S+'Particle.hpp')],'observer notified when a secondary is banked, a walk starts and a history is committed')
prop('C08','Delta tracking reproduces the physics of direct tracking',
 "With delta tracking, tentative collisions follow the region's majorant cross section, which is never below the total cross section anywhere in the region, and each is accepted with probability total over majorant evaluated at the tentative collision site. A rejected collision changes nothing but the position, so that real collisions have the same distribution as with direct tracking.",
 ['inputs','configurations','histories'],"every material, energy and temperature field, every value of the random numbers",
 "tests run one delta-tracked problem with constant total, where acceptance is always one",
 [S+'TransportMethod.cpp',S+'Material.cpp',S+'ContinuousReaction.cpp'],[('CellDeltaTracking::Transport',S+'TransportMethod.cpp'),('GetMajorant',S+'ContinuousReaction.cpp')],['events of delta-tracked walks'],None,'externally supplied random numbers')
prop('C09','Each requested history runs exactly once whatever the thread schedule',
 "For any number of worker threads and any interleaving of them, every one of the requested histories is simulated exactly once, with a random seed determined by the base seed and the history's index alone, and the results of all workers are merged exactly once into the answer. Nothing is simulated beyond the requested number and no thread hangs.",
 ['schedules','configurations'],"every thread count (including more threads than histories), number of histories and interleaving of workers",
 "tests run with a fixed small thread count on whatever interleaving the scheduler happens to produce and check averages only",
 [S+'FixedSource.cpp',S+'FixedSource.hpp',S+'Driver.cpp'],[('atomic count of histories started',S+'FixedSource.cpp'),('merging of worker results',S+'FixedSource.cpp')],['seeds used','commits per thread','merged answer'],
 [dict(name='histories_elapsed',meaning='number of histories handed out',where=S+'FixedSource.hpp')],'observer notified when a history is started and committed')
prop('C10','Tallies accumulate whole-history sums and squares and merge additively',
 "Scores of all particles of one history are summed per bin before being recorded, and recording adds that sum to the bin's total and the square of that sum to the bin's total of squares, once per history. Merging adds totals and totals of squares of equally named results and changes nothing else; copies are independent.",
 ['histories','schedules','configurations'],"every sequence of scoring, recording, copying and merging operations, any number of bins, results and scores per history",
 "tests score one particle type in one fixed order; histories with repeated scores in one bin, unrecorded histories and merges of several workers are not covered",
 [S+'Scorable.cpp',S+'Estimator.cpp'],[('ScorableProxy::Score, CommitHistory',S+'Scorable.cpp'),('operator+=',S+'Scorable.cpp'),('EstimatorSet::operator+=',S+'Estimator.cpp')],['scores reported after any sequence of operations'],
 [dict(name='pending scores, scores, square scores',meaning='uncommitted and committed results',where=S+'Scorable.hpp')])
prop('C11','Every value falls into exactly the bin whose printed bounds enclose it',
 "Each binning is a partition of all real numbers into half-open intervals delimited by its printed boundaries, including one below the lowest and one from the highest boundary on, and each combination of direction-cosine and energy bins has its own position in the results. Equally spaced and logarithmic boundaries are evenly spaced between the requested limits.",
 ['inputs','configurations'],"every binning and every real value: on, next to, between and far outside boundaries, negative and zero, any combination of binnings",
 "tests look up a dozen values per binning",
 [S+'Bins.cpp',S+'Bins.hpp'],[('GetIndex',S+'Bins.cpp'),('ComputeStrides',S+'Bins.hpp')],['bin index of values and particles','printed boundaries'])
prop('C12','Current results count every crossing of their surface exactly once',
 "A current result increases by one exactly when a particle passes through its surface, including when it thereby leaves the problem, and for no other event, whatever other results exist. The increase goes to the bin of the particle's energy and of the cosine between its direction at the crossing and the unit vector along the requested reference direction.",
 ['histories','configurations','inputs'],"every history, any number of results on any surfaces with any binning, any reference direction, any region layout",
 "tests check one-surface problems; repeated crossings, several results and non-unit reference directions are not checked event by event",
 [S+'Estimator.cpp',S+'Scorable.cpp',S+'Bins.cpp'],[('CurrentEstimator::GetScore',S+'Estimator.cpp'),('ParticleBins::GetIndex',S+'Bins.cpp')],['events of every history','reported scores'],None,'observer notified at each scored event')
prop('C13','The report states the mean and standard error of the simulated histories',
 "The program writes, beside its input and with extension .out, the number of histories and for every result in input order its name, bin boundaries, and per bin the mean score per history and the standard error of that mean derived from the recorded totals of scores and squares. All figures are finite and the program succeeds.",
 ['inputs','histories','configurations'],"every problem and outcome, including bins with no, constant or very unequal scores, and any input path",
 "no test runs the program and recomputes the printed figures from the histories",
 [S+'Scorable.cpp',S+'Estimator.cpp',S+'minimc.cpp',S+'Bins.cpp'],[('GetScoreAsString',S+'Scorable.cpp'),('main',S+'minimc.cpp')],['contents of the written file, exit status'])
prop('C14','Sensitivities pair each score with the perturbation effect of its path',
 "A sensitivity records, at each event that scores in its parent result and in the same bin, the accumulated indirect effect of its own perturbation, which starts at zero for each particle and changes with every flight in a region containing the perturbed nuclide by the reciprocal of the microscopic cross section that governs flight there, minus the distance flown, and not elsewhere. Its totals and squares are combined over a history and over workers like those of any result, and it is reported below its parent.",
 ['histories','configurations','inputs'],"every history and any number of perturbations, sensitivities, parent results and bins",
 "tests check one averaged sensitivity of one problem within statistical error",
 [S+'Sensitivity.cpp',S+'Perturbation.cpp',S+'Particle.cpp',S+'Estimator.cpp'],[('Particle::Stream',S+'Particle.cpp'),('TotalCrossSectionPerturbation::Stream',S+'Perturbation.cpp'),('CurrentTotalCrossSectionSensitivity::GetScore',S+'Sensitivity.cpp')],['indirect effects at each event','reported sensitivities'],None,'observer notified at each scored event')
prop('C15','Same input and seed give the same results, whatever else ran before',
 "Running a problem again with the same input and seed, in the same process or another, after other problems, a second time from the same object, or with another number of threads, gives the same results; results for the first histories of a longer run equal those of the shorter run. Different seeds give different histories.",
 ['configurations','schedules','histories'],"every problem, thread count, order of problems in one process, and repetition",
 "tests run each problem once in one process and compare with tolerance",
 [S+'FixedSource.cpp',S+'Driver.cpp',S+'Material.hpp',S+'Cell.hpp',S+'Particle.hpp'],[('seed of each history',S+'FixedSource.cpp'),('containers ordered independently of addresses',S+'Material.hpp')],['reported results of repeated runs'])
prop('C16','Unusable input is rejected with an error and usable input is accepted',
 "An input that violates the documented format, refers to an undefined entity, has an unusable binning or data table of the wrong size, or asks for an unsupported combination is rejected by an exception before any history is simulated, never by a crash or a silently wrong problem. Input that follows the documented format is accepted.",
 ['inputs','fault_sequences'],"every single-fault mutation (removed, duplicated, renamed, reordered or ill-valued parts, missing or malformed files) of every kind of valid input",
 "tests try a handful of malformed files",
 [S+'XMLDocument.cpp',S+'World.cpp',S+'Material.cpp',S+'Bins.cpp',S+'Multigroup.cpp',S+'Perturbation.cpp',S+'Estimator.cpp',S+'TransportMethod.cpp','test/minimc.xsd'],[('schema validation',S+'XMLDocument.cpp'),('lookup by name',S+'World.cpp')],['outcome of constructing the problem'])
prop('C17','Tabulated data are read and looked up faithfully',
 "Every entry of a data file is retrieved under its own combination of axis values, for any number of axes and axis lengths. A table keyed by continuous variables returns the tabulated value at tabulated points, the linear interpolant between neighbouring points elsewhere, and the nearest end value outside the tabulated range; a tabulated cumulative distribution returns the entry whose probability interval contains the random number.",
 ['inputs','configurations'],"every table shape, content and argument inside and outside the tabulated range",
 "tests read one file and one map; other shapes, boundaries and arguments out of range are not covered",
 [S+'HDF5DataSet.hpp',S+'ContinuousMap.hpp'],[('at, ComputeAxisStrides, ToContinuousMap',S+'HDF5DataSet.hpp'),('ContinuousMap::at',S+'ContinuousMap.hpp')],['values returned for every index and argument'])
P17=P[-1]
prop('C18','Continuous-energy cross sections are evaluated at energy and temperature',
 "For continuous-energy data a nuclide's total cross section is the tabulated total where that table's temperature applies and no thermal scattering data are in force, and otherwise the sum of the cross sections of its reactions. Among these, elastic scattering is adjusted from its table's temperature to the local one by the free-gas formula where that applies, or replaced by the thermal scattering data. All are evaluated at the particle's energy and at the temperature of its position.",
 ['inputs','configurations'],"every data set, energy and temperature, with and without elastic and thermal scattering",
 "tests compare a few points of one proprietary data set that is not in the repository",
 [S+'Continuous.cpp',S+'ContinuousReaction.cpp',S+'ContinuousEvaluation.cpp'],[('Continuous::GetTotal',S+'Continuous.cpp'),('ContinuousScatter::GetCrossSection',S+'ContinuousReaction.cpp'),('ContinuousEvaluation::IsValid',S+'ContinuousEvaluation.cpp')],['cross sections returned for particles'])
prop('C19','Continuous-energy collisions select reactions and conserve kinematics',
 "A continuous-energy collision selects each reaction with probability proportional to its cross section at the particle's energy and temperature; capture and fission end the walk and elastic scattering gives an outgoing energy and cosine that conserve momentum and energy with a target whose velocity follows the documented free-gas distribution. Outgoing energies are positive and cosines lie between -1 and 1.",
 ['inputs','configurations'],"every target mass, temperature, energy and set of reactions, every value of the underlying random numbers",
 "tests average one scattering distribution of one data set",
 [S+'Continuous.cpp',S+'ContinuousReaction.cpp'],[('Continuous::Interact',S+'Continuous.cpp'),('ContinuousScatter::Interact, SampleTargetSpeed',S+'ContinuousReaction.cpp'),('ContinuousFission::Interact',S+'ContinuousReaction.cpp')],['event, energy and direction after each collision'],None,'externally supplied random numbers')
prop('C20','Thermal scattering cross sections interpolate the compressed tables',
 "Below the thermal cutoff energy the bound-atom scattering cross section of a neutron is the bilinear interpolant in energy and temperature of the values reconstructed from the compressed tables, using the end values outside the tabulated temperatures and below the lowest energy; at or above the cutoff, and for other particles, thermal data are not used. Where thermal data apply they replace the free-atom scattering cross section in the totals.",
 ['inputs','configurations'],"every compressed table (sizes, orders), energy and temperature, inside, at the ends of and outside the tabulated ranges",
 "the only test needs data files that are not in the repository",
 [S+'ThermalScattering.cpp',S+'ContinuousReaction.cpp'],[('ThermalScattering::GetTotal, IsValid, GetMajorant',S+'ThermalScattering.cpp'),('ContinuousScatter::ModifiesTotal',S+'ContinuousReaction.cpp')],['cross sections returned for particles'])
prop('C21','Thermal scattering samples energy and angle from the tables',
 "In bound-atom scattering the energy transfer is drawn from the tabulated distribution of one of the two neighbouring incident energies, chosen with the linear interpolation weights, and the momentum transfer from that of one of the two neighbouring energy transfers restricted to and rescaled onto the kinematically allowed range. Hence the outgoing energy is not negative and the scattering cosine lies between -1 and 1.",
 ['inputs','configurations'],"every compressed table and partitioning, energy and temperature, every value of the underlying random numbers",
 "the only test needs data files that are not in the repository",
 [S+'ThermalScattering.cpp'],[('SampleBeta, SampleAlpha, Scatter',S+'ThermalScattering.cpp'),('BetaPartition::Evaluate, AlphaPartition::Evaluate',S+'ThermalScattering.cpp')],['energy and direction after each collision'],None,'externally supplied random numbers')
prop('C22','Source particles have the requested distribution',
 "Every source particle has the requested position, energy or group and particle type, and a direction that is the requested one scaled to unit length, isotropic, or distributed as the inward flux through a surface with the requested normal: positive cosine with density proportional to the cosine and uniform azimuth. Its state depends on the history's seed only.",
 ['inputs','configurations'],"every source specification and reference direction, every value of the underlying random numbers and every seed",
 "tests sample a few particles from constant distributions",
 [S+'Source.cpp',S+'Point.cpp'],[('Source::Sample, Distribution<T>::Create, IsotropicFlux::Sample',S+'Source.cpp')],['sampled source particles'],None,'externally supplied random numbers')
prop('C23','Directions stay unit vectors and turn by the requested angle',
 "Every direction a particle ever has is a unit vector. A direction obtained by turning another by a given cosine and azimuth has exactly that cosine with the original and the azimuth runs uniformly around it, whatever the original direction, including along and near the coordinate axes; isotropic directions are uniform on the sphere.",
 ['inputs','histories'],"every original direction, cosine in [-1,1] and azimuth, every value of the underlying random numbers, any number of successive turns",
 "tests turn a few directions",
 [S+'Point.cpp'],[('Direction constructors, Normalize',S+'Point.cpp')],['components of directions'],None,'externally supplied random numbers')
prop('C24','Temperatures and tracking modes resolve as the input prescribes',
 "The temperature at a position is the region's own value if given, else the global field's value there (constant, or gradient times position plus intercept), else room temperature. Tracking is direct by default and as requested otherwise, and a request for direct tracking in a non-constant global field is refused; field bounds are those given.",
 ['inputs','configurations'],"every combination of global field, region override, tracking request and position",
 "tests check a constant field and one linear field at single points",
 [S+'ScalarField.cpp',S+'Cell.cpp',S+'World.cpp',S+'TransportMethod.cpp'],[('ScalarField::at',S+'ScalarField.cpp'),('AssignTemperature',S+'Cell.cpp'),('TransportMethod::Create',S+'TransportMethod.cpp')],['temperature at positions','accepted or refused problems'])
prop('C25','Material cross sections are normalised mixtures of nuclide data',
 "A material's microscopic total and majorant are the atom-fraction-weighted sums over its nuclides at the particle's energy and type, with atom fractions scaled to sum to one and the density as given. Multigroup totals are the sums of the given reactions, with scattering the column sums of the group transfer matrix in which rows are outgoing and columns incoming groups.",
 ['inputs','configurations'],"every mixture, number of nuclides, groups and reactions, shared between any number of materials and regions, for neutrons and photons",
 "tests check one material of one two-group nuclide",
 [S+'Material.cpp',S+'Multigroup.cpp',S+'Nuclide.cpp',S+'World.cpp'],[('AssignNuclides, GetMicroscopicTotal',S+'Material.cpp'),('CreateTotalXS, CreateScatterXS',S+'Multigroup.cpp')],['cross sections returned for particles in regions'])
prop('C26','Criticality calculations estimate the multiplication factor',
 "For a criticality problem the reported multiplication factor is the average over active cycles of neutrons produced per neutron started, with the source of each cycle drawn from the fission sites of the previous one. Inactive cycles do not contribute.",
 ['histories','configurations'],"every fissile problem and number of cycles",
 "the criticality driver is an unfinished stub; no test runs one",
 [S+'KEigenvalue.cpp'],[('KEigenvalue::Solve',S+'KEigenvalue.cpp')],['reported results'])
with open('/verif/properties.jsonl','w') as f:
    for p in P: f.write(json.dumps(p)+'\n')
print(len(P))
