NOTES = ("All checks share one engine: every source file of libcgmf and utils/cgmf is compiled from /repo's current tree to "
         "LLVM IR with debug information (no code of CGMF is run), and the rules query that IR, its call graph, and symbolic "
         "summaries of functions computed from it. See DESIGN.md.")
COMMON = " Trusts clang's front end, the IR extractor and the term algebra (reals for doubles, unbounded integers for ints)."
PROPS = []
def P(**k): PROPS.append(k)

P(id="C01", title="Results are a function of the inputs only",
  statement="Two runs with the same isotope, energy, event count, starting event, time window and data files produce the same events, history file and summary. No clock, process or thread identity, memory address, locale-dependent or hidden random source, or concurrent execution can influence a result: every random number comes from the one installed generator.",
  over=["inputs", "schedules", "configurations"],
  q="For every input, run and machine state; for the serial and the MPI build.",
  why="The tests compare three short runs with stored files on one machine; a dependence on time, addresses or a second random source on a branch those runs do not take stays invisible.",
  files=["libcgmf/src", "libcgmf/include/rngcgm.h", "utils/cgmf/cgmf.cpp"],
  mech=[("set_rng / rng_cgm", "libcgmf/src/cgmfEvents.cpp, libcgmf/include/rngcgm.h"), ("per-event seeding", "utils/cgmf/cgmf.cpp")],
  state=[("rng_cgm", "the installed generator", "libcgmf/src/cgmfEvents.cpp")],
  technique="effect analysis over the whole program's IR (sources of nondeterminism, draws only through the installed generator)",
  note="Complete over every call site and address-to-integer conversion in both build configurations for the listed kinds of source; assumes library functions not on the list are deterministic and excludes uninitialised memory." + COMMON)

P(id="C02", title="An event does not depend on the events generated before it",
  statement="With the generator reseeded, an event generated after any number of other events, for any isotopes, energies and time windows, equals the same event generated first in a fresh process: nothing an earlier event left in variables that outlive it, in start-up data or in reused memory influences a later one. Within a run that samples many fissions with one generator object, each fission sets what it uses, whatever the fissions and rejected samples before it.",
  over=["inputs", "histories"],
  q="For every sequence of earlier events and every variable that outlives an event.",
  why="Carry-over shows only for particular sequences of events (another isotope, energy or window first, a rejected sample, a second event with a larger index); the tests generate one short sequence each.",
  files=["libcgmf/src/cgmfEvents.cpp", "libcgmf/src/specmc.cpp", "libcgmf/src/FissionFragments.cpp", "libcgmf/src/Yields.cpp", "libcgmf/src/kinematics.cpp", "libcgmf/src/ripl2levels.cpp"],
  mech=[("cgmfEvent::cgmfEvent", "libcgmf/src/cgmfEvents.cpp"), ("specMCMainFission (reset of the history)", "libcgmf/src/specmc.cpp"), ("FissionFragments::constructYields", "libcgmf/src/FissionFragments.cpp"), ("static tables Pcostheta, Ppreeq", "libcgmf/include/FissionFragments.h")],
  technique="interprocedural upward-exposed-reads dataflow over every variable that outlives an event, latch/memo/default-fill classification, pointer-root analysis of start-up tables, coverage of conditionally written tables",
  note="Complete over globals, statics and members of the generator objects at the granularity of variables and members (an element of an array counts as set when the array is; two tables are decided element by element); members whose reads and writes are guarded by the same condition are listed, not decided." + COMMON)

P(id="C03", title="Event number determines the random sequence",
  statement="Before each event the random generator is reseeded with a seed that is the starting event number plus the event's global index, so event k of a run is the same whatever the run's starting number, length or number of parallel ranks. With several ranks the ranks' event numbers are disjoint and consecutive, and a generator seeded with s always yields the same sequence of uniform numbers in [0,1), the one its constructor and its reseeding operation both select.",
  over=["inputs", "histories", "configurations"],
  q="For every starting event, event count, rank and number of ranks, and every sequence of reseedings.",
  why="The tests run one seed, one rank, and a few events; an off-by-one, a rank overlap or a seed ignored by a constructor shows only for other starting numbers or rank counts.",
  files=["utils/cgmf/cgmf.cpp", "libcgmf/include/rngcgm.h", "libcgmf/src/cgmfEvents.cpp"],
  mech=[("main event loop", "utils/cgmf/cgmf.cpp"), ("UniformRNG::set_seed", "libcgmf/include/rngcgm.h")],
  technique="symbolic summary of the driver's event loop (seed term per iteration, both configurations) and typestate of the generator",
  note="Exact equality of the seed term with the specified one for all values of the inputs; the generator's engine is the library's." + COMMON)

P(id="C08", title="History file records each event completely and in order",
  statement="For every event the history file receives one record for the light and one for the heavy fragment with A, Z, excitation energy, spin, parity, pre- and post-emission kinetic energy, and neutron, photon and pre-fission neutron counts, followed by both momenta and by the energies and directions (and photon times when a time window was requested) of exactly as many particles as the counts announce. The first line of the file gives the isotope, the incident energy and the time window, and the two fragments' records are never mixed.",
  over=["inputs", "histories", "configurations"],
  q="For every event, multiplicity (including zero), time window setting and rank.",
  why="No test that passes here prints a history record at all (the level data needed is absent), and sampled files cannot cover every multiplicity.",
  files=["utils/cgmf/cgmf.cpp", "tools/CGMFtk/histories.py"],
  mech=[("printEventToFile", "utils/cgmf/cgmf.cpp"), ("main (header line)", "utils/cgmf/cgmf.cpp")],
  technique="symbolic print-stream of the writer compared with the format specification, case by case over the branch conditions",
  note="The whole sequence of printed fields, loop bounds and conditions is compared for all events." + COMMON)

P(id="C09", title="A yields file holds every sampled fission, light fragment then heavy",
  statement="In yields mode the file asked for is started afresh and holds, for each of the requested number of fissions and in the order they were sampled, one line for the light and one for the heavy fragment: Z A KE U spin parity px py pz, separated by blanks, as sampled for the requested isotope and energy, and nothing else. A sampled fission is kept only if both fragments have excitation energy, is replaced by another one otherwise, and sampling ends only when the requested number is reached. The C interface generates the same yields for the isotope, energy and number it is given.",
  over=["inputs", "histories"],
  q="For every isotope, energy, number of fissions, file name and sequence of accepted and rejected samples.",
  why="The tests compare three short files for one energy each; an exchanged column of equal values, a rejected sample that is kept, a count cut off at some limit or a changed number format for other values does not show in them.",
  files=["libcgmf/src/cgmfEvents.cpp", "libcgmf/src/FissionFragments.cpp", "libcgmf/src/cgmfEvents_capi.cpp"],
  mech=[("cgmfYields::cgmfYields", "libcgmf/src/cgmfEvents.cpp"), ("FissionFragments::generateInitialFissionFragmentHistories", "libcgmf/src/FissionFragments.cpp"), ("cgmf_genfissyields", "libcgmf/src/cgmfEvents_capi.cpp")],
  technique="symbolic print-stream of the writer compared with the format specification; decision of the generator's loop from its symbolic index (start, step, acceptance condition, end)",
  note="The sampled values themselves are the subject of other properties; the iostream library is trusted to print what it is given." + COMMON)

P(id="C10", title="C interface returns the quantity its name says",
  statement="Every function of the C interface that returns a property of the current event returns exactly that property of the event generated last: the right fragment (light or heavy), the right particle index, the right component, and pre- against post-emission values not interchanged. Event generation passes isotope, energy and start time through unchanged, and every declared function exists.",
  over=["inputs", "histories"],
  q="For every event and every valid particle index.",
  why="No existing test calls the C interface; it has about fifty entry points, and a test could sample only a few events and indices.",
  files=["libcgmf/src/cgmfEvents_capi.cpp", "libcgmf/include/cgmfEvents_capi.h", "libcgmf/include/cgmfEvents.h"],
  mech=[("cgmf_get* wrappers", "libcgmf/src")],
  technique="symbolic summary of each wrapper compared with the summary of the named event quantity",
  note="Return values compared as terms over the event object for all events and indices." + COMMON)

P(id="C11", title="An event lists all emitted particles of both fragments",
  statement="A constructed event reports as neutron (photon) multiplicity the sum over its two fragments, and its particle lists hold the light fragment's particles in emission order followed by the heavy fragment's, each with the energy, direction and, shifted by the event's start time, age that the fragment's decay produced. Both fragments are de-excited exactly once, starting from the sampled mass, charge, energy, spin, parity and momentum, and the pre-fission neutrons' energies and directions are those of the neutrons lost before scission.",
  over=["inputs", "histories"],
  q="For every number of neutrons and photons each fragment may emit, including none, and every start time.",
  why="The stable tests generate no de-excited event; sampled events cannot cover all combinations of multiplicities.",
  files=["libcgmf/src/cgmfEvents.cpp", "libcgmf/include/cgmfEvents.h"],
  mech=[("cgmfEvent::cgmfEvent", "libcgmf/src/cgmfEvents.cpp"), ("allocateMemory", "libcgmf/src/cgmfEvents.cpp")],
  technique="array-content terms after loop inversion, compared case by case (Fourier-Motzkin on linear guards)",
  note="Covers element k of every list for symbolic k and multiplicities." + COMMON)

P(id="C12", title="Event accessors return the stored event quantity",
  statement="Every accessor of an event returns the quantity it names for the fragment or particle it names, unchanged and without modifying the event. Light- and heavy-fragment quantities, pre- and post-emission quantities and the three components of a direction are never interchanged.",
  over=["inputs", "histories"],
  q="For every event and every valid particle index.",
  why="No existing test calls an accessor directly.",
  files=["libcgmf/include/cgmfEvents.h"],
  mech=[("inline getters", "libcgmf/include/cgmfEvents.h")],
  technique="symbolic summary of each accessor compared with the member it must denote; absence of writes",
  note="All accessors, all events, all indices." + COMMON)

P(id="C19", title="Parallel totals equal the sum over ranks",
  statement="In a parallel run each global total used for the summary (event count, neutron, photon and fragment sums) is the sum of that quantity over all ranks, formed exactly once and delivered to the rank that prints it. Every rank takes part in the same sequence of collective operations, and communication is set up before and shut down after all of them.",
  over=["schedules", "configurations", "inputs"],
  q="For every number of ranks and every distribution of events.",
  why="The tests build without MPI, so none of this code is ever compiled by them.",
  files=["utils/cgmf/cgmf.cpp"],
  mech=[("printSummaryEvents reductions", "utils/cgmf/cgmf.cpp")],
  technique="symbolic summary of the MPI configuration: buffers, counts, types and order of collectives; rank-uniformity of their guards",
  note="Compiled against a stub of the MPI interface; assumes MPI implements its collectives." + COMMON)

P(id="C20", title="Printed averages are totals over the events recorded",
  statement="Every average in the end-of-run summary is the accumulated total of that quantity over all recorded events divided by the number of events (per fragment, per fission or per particle as labelled), each event contributes exactly once to each total, and a run without events prints no averages.",
  over=["inputs", "histories"],
  q="For every sequence of events.",
  why="No test inspects the summary.",
  files=["utils/cgmf/cgmf.cpp"],
  mech=[("recordEvent", "utils/cgmf/cgmf.cpp"), ("printSummaryEvents", "utils/cgmf/cgmf.cpp")],
  technique="symbolic loop summaries (accumulation terms) of the recorder and printed terms of the summary",
  note="Totals compared as sums over the event's lists for all multiplicities." + COMMON)

P(id="C04", title="Only supported isotope and energy combinations are simulated",
  statement="A request is simulated only if the isotope is one CGMF supports and the incident energy is 0 for a spontaneously fissioning isotope or above 0 and at most 20 MeV for a neutron-induced one; every other combination, including a negative or not-a-number energy or a time window other than -1 or a non-negative number, ends the process with an error before any event or yield is produced. The isotope, energy, start time and window the user gave reach the physics unchanged.",
  over=["inputs"],
  q="For every isotope identifier and every incident energy and time window, including negative, NaN and unlisted ones, through the event and the yields entry point.",
  why="The tests run three accepted combinations and no rejected one; acceptance has to be right for every point of an infinite plane.",
  files=["libcgmf/src/cgmfEvents.cpp", "libcgmf/src/FissionFragments.cpp", "utils/cgmf/cgmf.cpp"],
  mech=[("checkInput", "libcgmf/src/cgmfEvents.cpp"), ("setOptions", "libcgmf/src/FissionFragments.cpp"), ("readUserInput", "utils/cgmf/cgmf.cpp")],
  technique="path-condition term of 'checkInput returns' evaluated over a cell decomposition of isotope x energy (all constants of the code and the specification), domination of the physics by the check",
  note="Cells are exact because every test compares an input with a constant; not-a-number is a separate flag on each comparison. The list of supported combinations is taken from the user documentation." + COMMON)

P(id="C05", title="Missing data or unwritable output stops the run",
  statement="Every data file the simulation needs is checked after opening and before its contents are used, and a file that cannot be opened ends the process with an error naming the problem, never a run with zero, stale or default tables. An output file that cannot be opened ends the process as well, and no stream is used before it was opened.",
  over=["inputs", "configurations"],
  q="For every data and output file, whichever of them is missing, on every path that opens it.",
  why="The tests run with a complete data directory; each file missing is a separate case that no test covers.",
  files=["libcgmf/src", "utils/cgmf/cgmf.cpp"],
  mech=[("open and check in every reader", "libcgmf/src/FissionFragments.cpp, ripl2levels.cpp, kcksyst.cpp, Yields.cpp")],
  technique="typestate dataflow over every file stream and FILE* in functions reachable from the entry points (closed, opened-unchecked, checked)",
  note="Path-insensitive in the contents of the file; a fallback to a second location counts as checked when the last attempt is." + COMMON)

P(id="C06", title="Fatal errors end the process with failure status",
  statement="When CGMF meets a fatal condition (rejected input, missing data, an array limit, an unknown nucleus) the process ends there with a nonzero exit status: the fatal-error routine never returns, no code after it runs, and no message that announces an error is followed by normal execution. Exit status 0 means that the run reached its orderly end.",
  over=["inputs", "configurations"],
  q="For every path that reports an error or ends the process, in both build configurations.",
  why="Error paths are not exercised by any test; a status or a missing exit on one of sixty of them is invisible.",
  files=["libcgmf/src/terminate.cpp", "libcgmf/src", "utils/cgmf/cgmf.cpp"],
  mech=[("cgmTerminateCode", "libcgmf/src/terminate.cpp")],
  technique="inter-procedural never-returns fixpoint, constant propagation into process-ending calls, post-domination of error messages by process end",
  note="Covers every call that ends the process and every error message reachable from the entry points." + COMMON)

P(id="C16", title="Momentum and energy are conserved in every neutron emission",
  statement="In every neutron emission the lab velocity of the neutron is its centre-of-mass velocity plus the velocity of the emitting nucleus, the momentum of the emitter drops by exactly the neutron's lab momentum, and lab and centre-of-mass energies are the kinetic energies of those velocities. Neutrons are emitted one after the other, each from the nucleus the previous one left. At scission the momenta of the light and heavy fragment add up to that of the compound nucleus (incident neutron minus pre-fission neutrons) and carry the sampled total kinetic energy in its rest frame; each fragment starts its decay with that momentum and the recorded final momentum is the one left after its last neutron.",
  over=["inputs", "histories"],
  q="For every emission direction and energy, number of neutrons, fragment pair, incident energy and pre-fission neutron multiplicity.",
  why="The stable tests diff only yields files of three runs; no test checks kinematics, and lab quantities are computed from random directions so sampled comparison cannot cover them.",
  files=["libcgmf/src/kinematics.cpp", "libcgmf/src/cgmfEvents.cpp", "libcgmf/src/cgm.cpp"],
  mech=[("neutron_emission_boost, boost, boost_pfn", "libcgmf/src/kinematics.cpp"), ("recordEmittedParticlesFission", "libcgmf/src/cgmfEvents.cpp")],
  technique="polynomial identities over symbolic summaries of the kinematics routines (modulo sqrt(x)^2 = x, sin^2 + cos^2 = 1), call-order of emissions from loop summaries",
  note="Exact identities over the reals for all inputs; rounding and non-relativistic approximation are not judged." + COMMON)

P(id="C14", title="Protons and neutrons are conserved from target to residual nuclei",
  statement="The compound nucleus is the target, plus the incident neutron unless fission is spontaneous; every pre-fission neutron removes one nucleon and no charge. Charges and mass numbers of light and heavy fragment add up to those of the fissioning nucleus, with N = A - Z and the light fragment not the heavier one, and the recorded pair is the one whose energies, spins, parities and momenta were computed. In the decay each emitted neutron lowers A by one and leaves Z, photons and conversion electrons change neither. Spins are half-integer exactly for odd A, parities are +1 or -1.",
  over=["inputs", "histories"],
  q="For every isotope, energy, random sequence, number of pre-fission neutrons and length of the decay chain.",
  why="The yields tests compare the first events of three systems; rare splits, long chains and everything after scission are not compared.",
  files=["libcgmf/src/FissionFragments.cpp", "libcgmf/src/setup.cpp", "libcgmf/src/specmc.cpp"],
  mech=[("constructYields, sampleFissionFragments, computeFragmentInitialConditions", "libcgmf/src/FissionFragments.cpp"), ("statSetupInitSystem", "libcgmf/src/setup.cpp"), ("mcStoreHistory", "libcgmf/src/specmc.cpp")],
  state=[("ncl", "table of nuclei of the current decay chain", "libcgmf/src/cgmfEvents.cpp")],
  technique="symbolic summaries (terms of Z, A, N left by each routine) compared with the conservation laws for all inputs; index-coverage of the decay chain; write-effect analysis of the original system's members",
  note="Integer arithmetic without overflow; the values of Z and A offered by the yield tables are not judged." + COMMON)

P(id="C15", title="Energy is conserved from the compound nucleus to the last photon",
  statement="The energy released in fission is the mass of the fissioning nucleus less those of the fragments; released energy plus the excitation energy that remains after pre-fission neutron emission, less the total kinetic energy, is shared completely between the two fragments. The kinetic energies add up to the total kinetic energy and are inversely proportional to the masses. Each neutron a fragment emits carries its state's energy less that of the state reached and the separation energy of the emitting nucleus, each photon or conversion electron the difference of the two states; the decay starts from the fragment's own energy, spin and parity, and each step from where the previous one ended.",
  over=["inputs", "histories"],
  q="For every isotope, energy, random sequence, number of pre-fission neutrons and sequence of decay steps.",
  why="The stable tests compare fragments before emission for three systems with at most one pre-fission neutron; no test looks at an emitted particle's energy.",
  files=["libcgmf/src/FissionFragments.cpp", "libcgmf/src/setup.cpp", "libcgmf/src/specmc.cpp"],
  mech=[("computeFragmentInitialConditions, computeFragmentExcitationEnergy, constructYields, getPrefissionNeutronEnergy", "libcgmf/src/FissionFragments.cpp"), ("mcHistoryLoop, mcGammaCascade, mcStoreHistory, mcRestorePopulation", "libcgmf/src/specmc.cpp"), ("statSetupInitSystem", "libcgmf/src/setup.cpp")],
  state=[("hs", "history of the current cascade", "libcgmf/src/specmc.cpp")],
  technique="symbolic summaries compared with the energy balance (rational normal forms, case splits), induction over the decay loop, coverage of the separation energies",
  note="Energies as real numbers. A continuum state's energy is spread over its bin by design, and the energy of the photon to the state reached is computed with the spread value; the energy of pre-fission neutrons is a bin energy. The unused maximum-entropy option is excluded, and the check fails if it is selected." + COMMON)

P(id="C17", title="Recorded particles are the ones emitted, with isotropic directions",
  statement="The neutrons and photons recorded for a fragment are exactly those of its decay, in the order of emission, each counted once; conversion electrons are not recorded as photons. Centre-of-mass energies are those of the decay; lab energies and the unit direction vectors are those the boost computed for the same particle. Evaporated neutrons and photons are isotropic in the frame of the emitting nucleus. A photon's lab energy is its energy Doppler-shifted with the speed of the nucleus left after the last neutron (direction kept), and its age is the time of its own transition, 0 for a transition from the continuum. The recorded final kinetic energy is that of the residual nucleus.",
  over=["inputs", "histories"],
  q="For every sequence of emissions (any mix of neutrons, photons and conversion electrons), every direction, fragment and momentum.",
  why="No stable test contains an emitted particle: events need a data file that is not in the repository, so nothing after scission is compared.",
  files=["libcgmf/src/specmc.cpp", "libcgmf/src/kinematics.cpp"],
  mech=[("recordEmittedParticlesFission", "libcgmf/src/specmc.cpp"), ("boost, neutron_emission_boost", "libcgmf/src/kinematics.cpp")],
  state=[("hs, np", "history of the current cascade", "libcgmf/src/specmc.cpp"), ("gammaTimeStamp", "emission times", "libcgmf/src/specmc.cpp")],
  technique="symbolic summaries of recording and boost loops: partition of the history proved for an arbitrary position by unrolled loop bodies, rational identities for directions and Doppler shift, uniformity of the sampled angles from their terms",
  note="One known finding (final kinetic energy uses the mass of the nucleus before emission). The random source is taken as uniform on [0,1)." + COMMON)

P(id="C18", title="Photon emission times and the time window of an event",
  statement="In the cascade through discrete levels the clock starts at 0, advances by an exponentially distributed time with the half-life of the level at each level that has one and not at all otherwise, and the time of a transition is stored for that transition. A transition takes place exactly when no window is set or its time is within the window; beyond it the cascade stops in the isomeric level. The window in force while an event's fragments decay is the one given for that event, and an event without a window has none.",
  over=["inputs", "histories"],
  q="For every level scheme, half-life, random sequence, window and sequence of events with different windows in one process.",
  why="No stable test has discrete levels or uses a window.",
  files=["libcgmf/src/specmc.cpp", "libcgmf/src/cgmfEvents.cpp"],
  mech=[("mcGammaCascade, set_time_coincidence_window", "libcgmf/src/specmc.cpp"), ("cgmfEvent::cgmfEvent", "libcgmf/src/cgmfEvents.cpp")],
  state=[("time_coincidence_window", "window in force", "libcgmf/src/specmc.cpp"), ("gammaTimeStamp", "emission times", "libcgmf/src/specmc.cpp")],
  technique="symbolic summary of one pass of the cascade loop (recurrence of the clock, guard of the transition) compared with the specification; order and guard of the window's installation in the event constructor",
  note="Half-lives of the level tables are not judged." + COMMON)
P(id="C07", title="Counters and loop indices never leave the fixed-size records",
  statement="The event records, particle histories, spectra and parameter tables of CGMF have fixed capacities. A counter that selects where the next particle, photon line, history entry or table row is stored (history of a cascade, neutron and photon multiplicities of an event, line tables, nuclei and channels of a decay chain) never reaches a value at which an element outside the array is read or written: the code stops with an error, or stores nothing, at the capacity. No loop runs an array index past the extent of its array, no constant index lies outside, and no library call that fills a buffer (getline, fill, memcpy) is given more room than the buffer has.",
  over=["inputs", "histories"],
  q="For every input, random sequence and sequence of calls that leads to such an access; indices computed from data files or physical quantities are not part of this property.",
  why="An overrun needs a cascade or a table at the limit of its capacity, which no test comes near, and then may corrupt silently.",
  files=["libcgmf/src/specmc.cpp", "libcgmf/src/cgmfEvents.cpp", "libcgmf/src/output.cpp", "libcgmf/src/FissionFragments.cpp", "libcgmf/src/Yields.cpp", "libcgmf/src/ripl2levels.cpp"],
  mech=[("mcStoreHistory, recordEmittedParticlesFission, recordEmittedParticles", "libcgmf/src/specmc.cpp"), ("cgmGetSpectra", "libcgmf/src/output.cpp"), ("statSetupInitSystem", "libcgmf/src/setup.cpp")],
  state=[("hs, np", "particle history", "libcgmf/src/specmc.cpp"), ("fissionEventType", "event record", "libcgmf/include/config-ff.h")],
  technique="interval analysis over all functions: a fixed point over formal arguments, return values, members, scalar globals per program point and loop counters (with trip counts), every array access and buffer-filling call compared with the extent of its array",
  note="An access whose index the analysis cannot bound by counters, loops and constants is counted as not decided, not as in range. An alarm is raised only for an index value that the analysis shows to be attained under the guards of the access." + COMMON)
P(id="C22", title="Command-line options reach the simulation",
  statement="Each option of the driver sets exactly the quantity it is documented for, from its argument: -i isotope, -e energy, -n number of events, -t time window, -s starting event, -f result file, -d data directory; a quantity whose option is absent has the documented default (starting event 1, window 1e-8 s, no isotope, no energy). A window is accepted only if it is -1 or not negative. Positive -n generates that many events, negative -n as many yields; results go to the file of -f, else histories.cgmf (events) or yields.cgmf (yields), followed by '.' and the rank. The isotope, energy, window, number and file used in the run are those values.",
  over=["inputs"],
  q="For every command line whose options getopt accepts.",
  why="Tests use three fixed command lines; most options, their combinations and the default names are never used.",
  files=["utils/cgmf/cgmf.cpp"],
  mech=[("readUserInput", "utils/cgmf/cgmf.cpp"), ("main", "utils/cgmf/cgmf.cpp")],
  state=[("ZAIDt, incidentEnergy, nevents, startingEvent, timeCoincidenceWindow, outfilename, path", "user input", "utils/cgmf/cgmf.cpp")],
  technique="summary of the option loop per option letter (variables assigned, conversion of the argument) against the documented table; string contents as sequences of pieces per case; arguments of the driver's calls as terms",
  note="How atof/atoi treat malformed numbers is not judged." + COMMON)
P(id="C23", title="Tables are read from the data directory in force",
  statement="The data directory is the one of -d if given, else the one of CGMFDATA if set, else the installed one if it exists, else that of the build if it exists; otherwise the run ends. A slash is appended to it exactly when it lacks one. Every table is read from the file of that name in this directory, or, for the tables that may be overridden locally, from a file of the same name in the working directory when there is one. Nothing but setdatapath changes the directory.",
  over=["inputs", "configurations"],
  q="For every combination of option, environment variable and existing directories, and every table file the library reads.",
  why="Tests run with one data directory.",
  files=["utils/cgmf/cgmf.cpp", "libcgmf/src/cgmfEvents.cpp", "libcgmf/src/FissionFragments.cpp", "libcgmf/src/Yields.cpp", "libcgmf/src/kcksyst.cpp", "libcgmf/src/ripl2levels.cpp"],
  mech=[("setdatapath, checkdatapath", "libcgmf/src/cgmfEvents.cpp"), ("readUserInput", "utils/cgmf/cgmf.cpp"), ("readLDP, readMasses, readRTA, ...", "libcgmf/src/FissionFragments.cpp")],
  state=[("datadir", "data directory", "libcgmf/src/cgmfEvents.cpp")],
  technique="contents of strings as sequences of pieces under path conditions, for every file opened and for the directory per case; writers of the directory",
  note="Names that a caller passes in (two readers of user-supplied yield files) are not decided." + COMMON)
P(id="C21", title="The Python toolkit reports what the history file holds",
  statement="Histories(file) stores, for every fragment record, each quantity from the position where the simulation writes it: mass, charge, excitation energy, spin, parity, kinetic energies, multiplicities, momenta, the energies and directions of each neutron in both frames, the energies, and times when recorded, of each photon, and the pre-fission neutrons of the heavy fragment; nevents limits the events read. Every method then returns what its name and docstring say, computed from the right entries: light and heavy fragments are never mixed up, each cut (energy, time window, fragment) selects with the documented comparison, averages divide by the number of entries averaged, and calling a method does not change what the others return. Yields(file) does the same for the yields file.",
  over=["inputs", "histories"],
  q="For every history file, every method, every combination of given and default arguments and every order of calls.",
  why="The tests read a few files and call a few methods with default arguments.",
  files=["tools/CGMFtk/histories.py", "tools/CGMFtk/yields.py"],
  mech=[("Histories._readHistoryFileFromCGMF", "tools/CGMFtk/histories.py"), ("Histories.*", "tools/CGMFtk/histories.py"), ("Yields.*", "tools/CGMFtk/yields.py")],
  state=[("self.*", "columns of the history file", "tools/CGMFtk/histories.py")],
  technique="abstract interpretation of the Python syntax tree to terms over file positions, compared with reference definitions; resolution of every name and attribute",
  note="numpy is modelled by the documented meaning of the functions used; floating point is treated as the reals.")
P(id="C13", title="Random decay choices follow the assigned probabilities",
  statement="At every step of the de-excitation of a fragment one uniform random number selects the next state with exactly the probability the model assigned to it: a photon to each continuum bin below the present one, spin and parity, a photon to each discrete level, and, when neutron emission is open, a neutron to each continuum bin (the highest included), spin and parity and each level of the daughter. Every such state is offered once, none is left out, the state recorded (nucleus, bin or level, spin, parity, energy) is the one whose probability was counted last, and the count goes on from one group of states to the next. Between discrete levels the transition is chosen by the branching ratios of the level, all of them, and leads to the final level of that transition; it is converted internally when a further random number exceeds the photon fraction of that same transition. The first state of a spin-parity distribution is chosen likewise.",
  over=["inputs", "histories"],
  q="For every population, level scheme and random sequence.",
  why="The stable tests stop before the decay; a state left out or a wrong label changes spectra slightly and no single event looks wrong.",
  files=["libcgmf/src/specmc.cpp"],
  mech=[("mcFindNext", "libcgmf/src/specmc.cpp"), ("mcGammaCascade", "libcgmf/src/specmc.cpp"), ("mcSampleStart", "libcgmf/src/specmc.cpp")],
  state=[("ncl[].pop, ncl[].lpop", "populations after one decay", "libcgmf/include/structur.h"), ("Level.branch, fstate, gratio", "level scheme", "libcgmf/include/structur.h")],
  technique="summaries of search loops: for every way out of a loop that compares a running sum with a random number, the increment added last as a term, against the state returned on that way; ranges of the loops; carried value of the sum; where the random number is drawn",
  note="What happens when the probabilities sum to less than the random number (a forced transition) is not judged, nor is the sampling of yields, which the stable tests compare exactly. Skipping states of probability zero is accepted." + COMMON)
P(id="C24", title="Statistical decay obeys the selection rules and conserves probability",
  statement="When the probabilities of one decay step are computed, a state of given excitation, spin and parity feeds exactly the states that angular momentum and parity allow: electric dipole photons change the parity and the spin by at most one, magnetic dipole photons keep the parity, electric quadrupole photons keep the parity and change the spin by at most two, none goes from spin 0 to spin 0; a neutron of orbital momentum l and total j couples the spins of parent and daughter and changes the parity by (-1)^l. Every lower bin, every bin of the daughter that can be reached, every spin of the table, both parities and every discrete level are served; neutrons only when the excitation exceeds the separation energy. The weight of a target is the transmission of that very transition (photon energy = difference of the two excitations; neutron energy = excitation less separation energy less final excitation) times the number of levels of the target bin (density times width) or one for a discrete level. The sum that normalises the step runs over the same targets with the same weights, and the population of the parent, divided by this sum, is what is handed on: nothing is lost or created, and a state without any transition passes its whole population to a level.",
  over=["inputs", "histories"],
  q="For every parent state (bin, spin, parity, integer and half-integer), level scheme, density and transmission table.",
  why="The stable tests stop before the decay. A forbidden or missing transition shifts spectra and multiplicities slightly; no single event shows it.",
  files=["libcgmf/src/gampop.cpp", "libcgmf/src/parpop.cpp", "libcgmf/src/specmain.cpp", "libcgmf/src/stattrans.cpp"],
  mech=[("specTransitionGamma, specTc2c, specTc2d", "libcgmf/src/gampop.cpp"), ("specTransitionParticle, specTransitionParticleCont, specTransitionParticleDisc", "libcgmf/src/parpop.cpp"), ("specCompoundDecay, specTransmissionSum, specPopulationBypass", "libcgmf/src/specmain.cpp"), ("statStoreGammaTransmission, statStoreContinuumTransmission, statStoreDiscreteTransmission", "libcgmf/src/stattrans.cpp")],
  state=[("ncl[].pop, ncl[].lpop", "populations after one decay", "libcgmf/include/structur.h"), ("ncl[].density, binwidth, lev", "level densities and level scheme", "libcgmf/include/structur.h")],
  technique="every write to a population extracted from the intermediate code as (target, weight, guard); guards, loop ranges and target indices, closed formulas in the quantum numbers, tabulated and compared with the selection rules; weights and returned sums compared as terms; balance of share and sum over the open channels",
  note="The values of strength functions, optical-model transmissions and level densities are taken as given. The tabulation covers all spins below the table's end." + COMMON)
