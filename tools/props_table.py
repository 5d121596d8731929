prop("P01", "Changing the storage order of a field never moves or alters a value",
 "Converting a field between plain (lexicographic) and vector-folded storage, in any sequence of conversions, leaves every lattice point of the field, of its velocity and of the auxiliary field with the value it had; a conversion into the order it already has changes nothing. Extracting a constant-z or constant-x slice, from either order, gives exactly the values of that slice in lexicographic order and alters nothing stored.",
 ["histories", "configurations"], "all sequences of fold/unfold/slice operations, all slice positions, field types, precisions, lattice shapes, halo widths, thread and rank counts",
 "The tests run whole simulations without assertions; a transposed or shifted lane gives a plausible field and the programs still end.",
 ["lib/scalar/folder.cpp", "include/scalar/folder.h", "include/scalar/scalarField.h"],
 [("fold/unfold index map and folded flags", "lib/scalar/folder.cpp"), ("slice extraction", "lib/scalar/folder.cpp")],
 [("folded flags", "which order m/v and m2 are in", "include/scalar/scalarField.h")], ["Folder calls; contents of the field arrays and of the halo planes that receive slices"],
 check=check("bounded exhaustive enumeration of operation sequences on the real code against a lexicographic reference model", "exploration",
  "Every sequence of layout changes to the stated depth followed by every operation incl. every slice position, with all-distinct labels, on small lattices for each field type, precision, thread count and 1-2 ranks. Lattices larger than the bound are not run; AVX2 layout only."))

prop("P02", "After a halo exchange every halo plane equals the periodic neighbour's plane",
 "When a halo exchange of a given depth has completed, the planes before and after each rank's slab hold exactly the periodic neighbours' outermost planes, for every field array that has halos, field type, precision, halo depth and number of ranks including one. This holds for every order in which the messages progress between the start and the end of the exchange and however a large halo is split into messages. Interior planes, and halo planes beyond the requested depth, are unchanged.",
 ["schedules", "configurations"], "message completion orders, capture times of send buffers, split exchange (send/receive/wait started separately) vs combined, 1 to 4 ranks, halo depths",
 "The tests run two ranks on one machine with eager delivery and only look at whether the program ends.",
 ["lib/scalar/scalarField.cpp", "lib/comms/comms.cpp"],
 [("persistent sends/receives, tags by rank and direction, chunking", "lib/scalar/scalarField.cpp")],
 [("requests kept between start and wait", "the pending exchange", "lib/scalar/scalarField.cpp")], ["halo planes after the wait"],
 check=check("exhaustive exploration of message capture and delivery choices of the real exchange code under an MPI interposer", "exploration",
  "Every exchange protocol, array, depth and, on 1-2 ranks, every combination of early/late capture of send buffers and delivery of receives; uniform and single-deviation choices on 3-4 ranks; message splitting at a lowered split size. Lattices of side 8."))

prop("P03", "A time step gives what its integrator's formulas give at every lattice point",
 "One time step of a field, for each field type, integrator, Laplacian order, potential, damping term and precision, gives at every lattice point the field and velocity that the integrator's formulas give on the periodic lattice, up to rounding. The time variable advances by exactly the requested step, and nothing but the evolved fields changes.",
 ["inputs", "configurations"], "all combinations of field type, integrator, neighbours, potential, damping, precision, cosmology terms; fields that put distinct values at every point",
 "The tests run two or three integrator settings and check that the program ended; they never compare a field value.",
 ["lib/propagator/propagator.cpp", "include/propagator/propClass.h", "include/propagator/propXeon.h", "include/propagator/propThetaXeon.h", "include/propagator/propPaxXeon.h", "include/propagator/propNaxXeon.h", "include/propagator/sPropXeon.h", "include/propagator/fsPropXeon.h"],
 [("stage loop and coefficients of the integrators", "include/propagator/propClass.h"), ("vectorised kernels", "include/propagator/propXeon.h")],
 [], ["field, velocity and time after a step"],
 check=check("exhaustive exploration of the configuration space of one to three steps of the real propagators, each compared with a reference transition function at every lattice point", "exploration",
  "All field types, precisions, Laplacian orders, instantiated potentials, evolution and damping variants, four cosmologies, base/spectral/full spectral/low memory; optional integrators in the thorough tier. Small lattices with a label of its own at every point."))

prop("P04", "Evolution does not depend on ranks, threads or work-block shape",
 "Evolving the same initial field gives the same field, velocity and time on every number of MPI ranks, every number of threads and every admissible work-block shape, up to rounding in the last digits. It does not depend on the order in which threads run or in which messages arrive.",
 ["schedules", "configurations"], "rank counts, thread counts, thread orders, message orders, block shapes, field types, integrators, halo depths",
 "The tests use one decomposition, one block shape and one schedule per run and never compare two of them.",
 ["lib/propagator/propagator.cpp", "include/propagator/propClass.h", "include/utils/tunable.h", "lib/scalar/scalarField.cpp"],
 [("overlap of the interior update with the halo exchange", "include/propagator/propClass.h"), ("block loops of the kernels", "include/propagator/propXeon.h")],
 [], ["field, velocity and time after some steps"],
 check=check("exhaustive exploration of ranks, threads, block shapes, message progress choices and thread interleavings (controlled OpenMP runtime with conflict detection) of the real time step", "exploration",
  "1-4 ranks (6 thorough), 1-5 threads, every block shape (thorough) or its boundary shapes (quick), all 16 message progress modes, compared with one reference. Thread interleavings are covered by running the instrumented kernels under a controlled runtime in several orders and showing that no two unsynchronised accesses conflict; FFTW and MPI internals are not instrumented."))

prop("P05", "Autotuning and its cache never change results and never break a run",
 "Tuning the work-block shape leaves the fields' evolution unaffected, ends for every lattice shape, and selects a block shape within the local lattice. A tuning cache is only used when it was made for the same lattice, threads and field settings. A cache file that is missing, empty, cut at any byte or holding other entries is never fatal and never changes results.",
 ["histories", "crash_points", "fault_sequences"], "all byte-prefix truncations of the cache and single-field corruptions, sequences of runs with different settings over one cache, lattice shapes",
 "The tests always start in a fresh directory with no cache, and no test compares fields with and without tuning.",
 ["lib/propagator/propagator.cpp", "include/utils/tunable.h"],
 [("tuner loop and cache lookup/update", "lib/propagator/propagator.cpp"), ("block enumeration", "include/utils/tunable.h")],
 [("tuneCache.dat", "cached block shapes", "lib/propagator/propagator.cpp")], ["fields after tuning; cache file; selected block"],
 check=check("exhaustive exploration of tuner outcomes under a controlled clock, of run sequences over one cache and of cache file truncations and corruptions, on the real tuner", "exploration",
  "Every shape as the fastest, lattices from one row and slice on, all sequences of 2 (3) settings, every truncation point and listed corruption of the cache, 1-2 ranks; each followed by a step compared with the reference."))

prop("P06", "Mending the angle field only adds multiples of the period and leaves no jumps",
 "Mending an angle field changes each value only by an integer multiple of the angle's period (its velocity is not changed except consistently with that), and where the field has no defects it leaves neighbouring points along the scanned directions less than half a period apart. The result is independent of the number of ranks and threads.",
 ["inputs", "configurations"], "all small patterns of wrapped values, wraps placed at slab, row and lane borders, rank and thread counts",
 "The tests never look at the field.",
 ["lib/scalar/mendTheta.cpp", "lib/scalar/mendThetaXeon.cpp"], [("slab walk and carry between ranks", "lib/scalar/mendThetaXeon.cpp")], [], ["the field after mending"],
 check=check("explicit enumeration on the real code: all 2^16 shift patterns along lines and columns, all slice patterns, every single shifted point, compared with the smooth field; rough fields against the documented scans; regions under a controlled OpenMP runtime with conflict detection", "exploration",
  "one evaluation = one mended field, every point compared"))

prop("P07", "Conversions between representations keep the content of every point",
 "Converting the complex field into an angle field, the angle field into the non-relativistic one, or an angle field back to a complex one, gives at every lattice point the values that the defining formula gives from the old values at that point, for field and velocity, in either precision and on any number of ranks. The field's type, status and time variable afterwards describe the new content.",
 ["inputs", "configurations"], "all pairs of field/velocity values from a small alphabet incl. branch cuts, precisions, ranks, storage orders",
 "The tests run one conversion per simulation and do not compare values.",
 ["lib/scalar/thetaXeon.cpp", "lib/scalar/thetaScalar.cpp", "lib/scalar/theta2Cmplx.cpp", "lib/scalar/theta2CmplxXeon.cpp", "lib/scalar/theta2Naxion.cpp", "lib/scalar/theta2NaxionXeon.cpp", "lib/scalar/theta2Paxion.cpp", "lib/scalar/theta2PaxionXeon.cpp", "lib/scalar/scalarField.cpp", "include/utils/simpleops.h"],
 [("per-point conversion kernels", "lib/scalar/thetaXeon.cpp"), ("type switch", "lib/scalar/scalarField.cpp")], [], ["field arrays and type after conversion"],
 check=check("exhaustive enumeration of point values (phases x moduli x velocities) through every conversion of the real code, each point compared with the defining formulas in long double", "exploration",
  "48 phases, 5 moduli, 25 velocities, both precisions, shifted or not, mended or not, folded or plain, four expansion laws, 1-3 ranks (6), 1-3 threads (5), halo depths 1-3; all values, type, element size, time and map status afterwards compared"))

prop("P08", "Fourier transforms are the exact discrete transforms of the global field",
 "Each Fourier plan applied to a field gives the discrete Fourier transform of exactly that field on the global lattice, and the inverse plan after the forward one gives back the field times the number of points. This holds for every kind of plan, precision and number of ranks, and a plan asked for twice or never planned is handled without disturbing other plans.",
 ["inputs", "configurations", "histories"], "a basis of inputs (all single modes or all delta functions) which decides a linear map, plan kinds, precisions, ranks",
 "The tests never compare a transform.",
 ["lib/fft/fftCode.cpp", "include/fft/fftCode.h", "lib/scalar/fourier.cpp"], [("plan registry", "lib/fft/fftCode.cpp")], [], ["arrays after a transform"],
 check=check("exhaustive enumeration of a basis of inputs for every plan (decides the linear map), and of all operation histories on the plan registry up to a depth", "exploration",
  "every plan kind, precision, rank and thread count within the bounds, every basis input, compared mode by mode; all histories of planning, removing and running up to the depth"))

prop("P09", "Reported energies are the lattice sums of the documented densities",
 "The energies reported for a field (gradient in each direction, kinetic, potential, and their masked versions) are the averages over the global lattice of the documented densities of the field, velocity and time; the energy map written at the same time holds the density of each point at that point. They do not depend on the number of ranks or threads.",
 ["inputs", "configurations"], "field types, precisions, potentials, rank/thread counts, fields with distinct values at every point, delta perturbations at every point",
 "The tests do not compare energies with anything.",
 ["lib/energy/energy.cpp", "lib/energy/energyXeon.cpp", "lib/energy/energyThetaXeon.cpp", "lib/energy/energyPaxionXeon.cpp", "lib/energy/energyNaxionXeon.cpp"],
 [("vectorised density kernels and reductions", "lib/energy/energyXeon.cpp")], [], ["energy array and energy map"],
 check=check("explicit enumeration of the real energy kernels: every field type x precision x potential x result kind x decomposition, one-point perturbations at every lattice point, and a controlled OpenMP runtime that checks every access of the parallel regions for conflicts, against long double densities", "exploration",
  "one evaluation = one call of energy()/stringenergy() with every entry and map point compared"))

prop("P10", "String detection marks exactly the plaquettes around which the phase winds",
 "For a complex field without exact zeros on links, a plaquette is marked as pierced by a string, with the right orientation, exactly when the phase winds around it, and the reported totals (plaquettes, signed count, walls) are the counts of marks over the global lattice. The marks form closed lines on the periodic lattice, and nothing depends on ranks, threads, precision or storage order.",
 ["inputs", "configurations"], "all assignments of a small phase alphabet to the corners of plaquettes and cubes placed at every position incl. lattice and slab borders; ranks; threads",
 "The tests only run the detector; a wrong count still ends the run.",
 ["lib/strings/strings.cpp", "lib/strings/stringXeon.cpp", "lib/strings/stringCpu.cpp"], [("crossing tests per plaquette", "lib/strings/stringXeon.cpp")], [], ["string map and counts"],
 check=check("exhaustive enumeration of corner-phase patterns on the real detector, controlled OpenMP runtime for the parallel regions", "exploration",
  "all 5^8 phase patterns of a cube, marks and counts compared with winding numbers"))

prop("P11", "String length and velocity sums follow from the marked plaquettes only",
 "The measured string length is the sum, over lattice cubes pierced by strings, of the lengths of the segments that join the piercing points, each counted once wherever the cube lies. It is the same for any translation of the field on the periodic lattice and any number of ranks and threads.",
 ["inputs", "configurations"], "all corner-phase patterns of a cube, translations, ranks",
 "No test compares a length.",
 ["lib/strings/length.cpp", "lib/strings/strings.cpp"], [("cube walk", "lib/strings/length.cpp")], [], ["length and velocity results"],
 check=check("exhaustive enumeration of corner-phase patterns on the real length measurement, controlled OpenMP runtime for the parallel regions", "exploration",
  "all 5^8 phase patterns of a cube, sums compared with long double formulas"))

prop("P12", "Power spectra put every Fourier mode into exactly one bin with its full power",
 "A power spectrum assigns each Fourier mode of the global lattice to the bin of its wave number with the weight of its conjugate partner, so that the bins' mode counts add up to the number of modes within range and the total power equals the field's variance. Spectra do not depend on ranks or threads.",
 ["inputs", "configurations"], "every single Fourier mode of small lattices, ranks, precisions, spectrum kinds",
 "The tests only check that the program ended.",
 ["lib/spectrum/spectrum.cpp", "include/spectrum/spectrum.h"], [("mode loops and bin index", "lib/spectrum/spectrum.cpp")], [], ["bins"],
 check=check("stateless exploration of the real spectrum code over a basis of the input space (every real Fourier mode of the lattice) x masks x parts x bins x ranks x threads, against an independent full-lattice mode sum", "exploration",
  "every mode of the lattice within the bounds is put in alone and every bin compared"))

prop("P13", "Histograms count every value once, in the bin that contains it",
 "A histogram of a data set puts every value that passes its filter into the bin whose range contains it, or into the edge bin that is defined for it, on any number of threads and ranks, and its normalisation makes the bins add up to the share of values counted. The reported minimum and maximum are those of the data.",
 ["inputs", "configurations", "schedules"], "all small data sets over an alphabet of bin edges and neighbours, threads, ranks",
 "The tests do not look at histograms.",
 ["include/utils/binner.h"], [("parallel binning and reduction", "include/utils/binner.h")], [], ["bins"],
 check=check("explicit enumeration of all small data sets over an alphabet of edge and special values, run through the real histogram class on several ranks and threads; controlled-scheduler exploration of its parallel regions; written histograms compared with the field", "exploration",
  "bounded: data sets of up to 3 (4) values per rank over an alphabet of 10 to 13 values, 2 to 10 bins; large sets with 3000 bins; real measurements of 16^3 lattices"))

prop("P14", "A stored configuration reads back as the same field and parameters",
 "Writing a configuration and reading it gives back the same field, velocity, time and physical parameters on any number of ranks, in every field type that can be read back (saxion, axion, modular axion, paxion); reading in another precision gives the converted values. Parameters given explicitly on the command line take precedence over stored ones and the others are taken from the file.",
 ["inputs", "configurations", "histories"], "field types, precisions, rank counts of writer and reader, storage orders at the time of writing, overriding options",
 "The tests restart once, on the same rank count, and check only the exit.",
 ["lib/io/readWrite.pHdf5.cpp"], [("parallel dataset layout and attributes", "lib/io/readWrite.pHdf5.cpp")], [], ["files; fields after reading"],
 check=check("stateless exploration of the real writer and reader over an exhausted product of configurations, rank counts and overriding options", "exploration",
  "every (writer set-up, parameter combination, reader set-up, override) within the bounds is executed and compared bit for bit"))

prop("P15", "Stopping and restarting a simulation gives the run that was never stopped",
 "A simulation stopped at any point where it can be stopped (wall-clock limit, stop request) and restarted from its restart file reaches the same fields, times and measurement numbering as one that was not stopped. A restart or configuration file cut short by a crash is reported as an error and never taken as a valid configuration.",
 ["crash_points", "histories"], "every step as stopping point, truncation points of the file",
 "One restart is run, and only its exit is checked.",
 ["lib/io/readWrite.pHdf5.cpp", "test/vaxions.cpp"], [("restart file", "lib/io/readWrite.pHdf5.cpp")], [], ["files of the resumed run"],
 check=check("stateless exploration of the real program: every stopping step and pair of stopping steps, and every crash point of the recorded file-system history", "exploration",
  "test/vaxions.cpp is stopped at every step (once and twice) and restarted, its files compared with the uninterrupted run; every prefix and torn write of the recorded writes of a configuration is read back by the real reader"))

prop("P16", "The background cosmology's functions are consistent with each other",
 "The scale factor, its derivatives, and the axion and saxion masses and their derivatives and integrals reported for any time agree with each other (each derivative is the derivative of its function, each square is the square, restored and cut masses follow the configured times) and with the configured laws, for every configured cosmology. The field reports the same values as the background at its own time.",
 ["inputs", "configurations"], "a grid of times around all regime boundaries, all mass laws, expansion exponents and potentials",
 "The tests use one cosmology and do not compare.",
 ["lib/cosmos/cosmos.cpp", "lib/scalar/scalarField.cpp"], [("piecewise laws", "lib/cosmos/cosmos.cpp")], [], ["values returned"],
 check=check("exhaustive evaluation of the real background functions over the product of all configured laws and boundary-adjacent times, against the laws in long double", "exploration",
  "all combinations of the listed parameter values; times on, around and between every boundary; the tabulated cosmology row by row"))

prop("P17", "Every logged message appears exactly once in the log, whatever the threads do",
 "Every message logged before shutdown appears exactly once, complete, in the log of the run, whichever threads logged it and however they interleave with each other and with the periodic flush. Logging never corrupts memory or blocks a run forever.",
 ["schedules"], "interleavings of logging threads, the flushing thread and shutdown up to a preemption bound",
 "The tests see one interleaving and do not read the log for completeness.",
 ["include/utils/logger.h", "lib/utils/logger.cpp", "lib/comms/comms.cpp"], [("message stack shared with the flushing thread", "include/utils/logger.h")], [], ["log file"],
 check=check("stateless model checking of the real logger: controlled scheduler over pthreads, delay-bounded exhaustive schedules with vector-clock race detection; exhaustive operation sequences over MPI ranks", "exploration",
  "real logger.h, initComms, endComms"))

prop("P18", "Tracked memory is accounted exactly and every block is released once",
 "After any sequence of tracked allocations and releases the reported totals equal the sizes of the blocks still allocated, per kind, and creating, converting and destroying fields returns the totals to what they were. No block is released twice or used after release.",
 ["histories"], "all sequences of allocations and releases up to a depth; field life cycles of every type",
 "The tests do not compare totals.",
 ["lib/utils/memAlloc.cpp", "lib/scalar/scalarField.cpp"], [("allocation table", "lib/utils/memAlloc.cpp")], [], ["memory statistics"],
 check=check("exhaustive exploration, on the real library, of all sequences of tracked allocations and releases and all field lives up to a depth, with every block ending at a forbidden page and released blocks staying forbidden; totals read from the log after every step", "exploration",
  "allocation sequences to depth 5 (6 thorough) over 5 allocations and 3 slots; lives: every field type, precision, 1-2 ranks, 1-2 halo planes, all sequences of up to 2 (3 thorough) of 40 operations"))

prop("P19", "Every command-line option sets the parameter it documents and nothing else",
 "Each command-line option with an admissible value sets the parameter that it documents to that value (and those derived from it by the documented relations) and leaves the other parameters at their defaults, in any order with other options; this includes the cosmology and initial-condition data built from them, where only the given ones replace those of a configuration that is read. A missing value, a number outside the documented range, an unknown keyword or an unknown option ends the program with an error instead of running with something else.",
 ["inputs"], "every option with each of its values, all ordered pairs of options",
 "The tests use a dozen option sets.",
 ["lib/utils/parse.cpp"], [("option loop", "lib/utils/parse.cpp")], [], ["parameters after parsing"],
 check=check("exhaustive enumeration of command lines (every option with each listed value, every ordered pair, every inadmissible one before and after every other) on the real parser, compared with a reference option table", "exploration",
  "About 120000 command lines, each parsed by the real code in a process of its own and compared in some 150 resulting settings; the thorough tier puts each ordered pair in three further contexts. Numbers that are not numbers, repeated options and tables read from files are not covered."))

prop("P20", "The adiabatic extrapolation evolves every Fourier mode by its own solution",
 "On a cubic lattice in radiation domination, extrapolating an angle field to a later time multiplies each Fourier mode's adiabatic amplitudes by the phases of that mode's own frequency integrated over the interval, for a mass growing as a power of time up to a given time and constant afterwards, or zero (then the mean moves freely); so extrapolating to the present time returns the field unchanged and a single mode stays a single mode. The time and scale factor become those of the end; the same object can be asked for several later times. The result is the same with one or two fields, any order of storage and any number of ranks.",
 ["inputs", "configurations"], "every single mode, time pairs, ranks",
 "The tests check only the exit.",
 ["lib/WKB/WKB.cpp", "include/WKB/WKB.h"], [("mode loop", "lib/WKB/WKB.cpp")], [], ["field after extrapolation"],
 check=check("exhaustive enumeration of extrapolations (every mode of dense fields and every plane wave, times, mass histories, boxes, ranks, one or two fields) on the real code, compared with each mode's own adiabatic solution in long double", "exploration",
  "adiabatic extrapolation"))

prop("P21", "The gravitational potential solves the Poisson equation of the density contrast",
 "On a cubic lattice the full solver gives, at every point and on any number of ranks, the zero-mean potential whose (spectral) Laplacian is the field's density contrast, for non-relativistic fields (density = squared amplitude) and angle fields (density = energy density), whatever the order in which the field is stored, without changing the field. The hybrid (multigrid) method approximates it: modes of wave number 1 to 20 %, with components up to 1 to 40 %, up to an eighth of the side to 80 %. Initialising gravity normalises the mean density to one and rescales the self-coupling with it. A time step with gravity turns the phase at every point by exactly that potential and the self-interaction. Tuning the hybrid method ends on every rank whatever times the ranks measure, and does not change the full solution.",
 ["inputs", "configurations", "schedules"], "every Fourier mode and point source of a small lattice, dense densities, ranks, orders, block shapes, and every assignment of the fastest choice to ranks",
 "The tests check only the exit.",
 ["include/gravity/potentialClass.h", "lib/gravity/potential.cpp", "include/gravity/gravityPaxionXeon.h"], [("spectral solver", "include/gravity/potentialClass.h")], [], ["potential array"],
 check=check("exhaustive enumeration of source densities (every Fourier mode, every point), rank layouts, orders, block shapes and rank-wise timing outcomes on the real solver, against an exact long double spectral solution", "exploration",
  "potential and gravity step"))

prop("P22", "Particle snapshots give every cell its share of the mass, inside the box",
 "A snapshot of a non-relativistic field has exactly the requested number of particles, numbered 0, 1, 2 …, all inside the box of the header, for any number of ranks. In the void mapping (one particle per point) particle number i lies at point i of the lattice, has the mass of that point (density over mean density times the average mass), and the velocity that the phase differences to its neighbours give (zero if not asked for). In the halo mapping all particles have the average mass, and every cell gets the integer below or above the number of particles that its share of the mass amounts to, whatever the random numbers, the distribution of the mass over the ranks and the requested number; without spreading they lie at the centre of their cell.",
 ["inputs", "configurations"], "small density patterns, ranks, modes",
 "One test checks that the program ends.",
 ["lib/gadget/gadget_output.cpp"], [("mass assignment", "lib/gadget/gadget_output.cpp")], [], ["snapshot file"],
 check=check("explicit enumeration of density patterns, particle numbers and random streams exported by the real code over ranks; the file is compared with the shares of every cell", "exploration",
  "About 4500 snapshots on 1 to 4 ranks; every random stream is fixed by replacing the entropy source."))

prop("P23", "Reduction, expansion and smoothing act on every mode as the filter says",
 "Reducing a field and its velocity (or an energy map) to a smaller lattice multiplies each Fourier mode by the filter's factor and keeps the zero mode, so the mean is unchanged, and the reduced field sits on the coarse lattice points and has its source's type, precision and time. Unless done in place, the source field is unchanged and stays usable. Smoothing an energy map or a complex field by neighbours multiplies every mode by the filter's factor, however many smoothings follow each other. Expanding a field to a larger lattice interpolates it linearly on the periodic lattice, and reading a saved configuration on a smaller or larger lattice gives its reduction or expansion. All are independent of the number of ranks and threads and of the order in which the field is stored.",
 ["inputs", "configurations"], "every single mode, precisions, field types, storage orders, ranks, every smaller lattice",
 "One test checks that the program ends.",
 ["lib/reducer/reducer.cpp", "lib/gen/smoothXeon.cpp", "include/utils/simpleops.h", "lib/spectrum/spectrum.cpp", "lib/io/readWrite.pHdf5.cpp"], [("filter in momentum space and copy", "lib/reducer/reducer.cpp"), ("expansion", "include/utils/simpleops.h")], [], ["reduced field"],
 check=check("exhaustive enumeration of Fourier modes, smaller lattices, types, precisions, orders and rank layouts on the real reducer, expansion, smoothing and reading code, every value compared with the exact result in long double", "exploration",
  "Every Fourier mode of lattices of side 8 (a third or less of them for the larger and less common combinations; all in the thorough tier), every smaller lattice for expansion; 1 to 4 ranks."))

prop("P24", "Projections and slice maps show the lattice values they claim to show",
 "A projection along z holds, at each (x,y), the mean over all ranks' points of that column (of the value or of its square, as requested), in plain order, and a written slice map (field and velocity at constant z or x, energy at constant z) or three-dimensional energy map holds exactly the lattice's values at the positions it stands for, for every slice position, precision, storage order and number of ranks, whichever maps are asked for together.",
 ["inputs", "configurations"], "labels at every point, every slice position, ranks",
 "The tests do not read the maps.",
 ["lib/projector/projector.cpp", "lib/io/readWrite.pHdf5.cpp"], [("column sums", "lib/projector/projector.cpp")], [], ["maps"],
 check=check("exhaustive exploration, on the real measurement code, of every slice position, every subset of requested maps and every single-point projection, each dataset compared with the lattice", "exploration",
  "All slice positions along z and x, all 31 subsets of the five map kinds, projections of every single point, both storage orders, both field types and precisions, 1-4 ranks (6 thorough), on lattices of side 16 (24-48 thorough)."))

prop("P25", "Initial conditions are what the options ask for",
 "Whatever the random numbers, generated initial conditions have what the options request: in momentum space every mode up to the largest one has the amplitude of the requested spectrum (times a normal random number if so requested), the others vanish, the zero mode is the given one and no two modes share their random numbers; patterns by position (strings, miniclusters, axitons, waves) have the documented value at each point, for any lattice, number of ranks and threads; smoothing, normalisation and string cores are applied as requested; and the velocity has the relation to the field that the kind asks for (comoving expansion, kick, extra velocity, Tkachev derivative, given spectrum). A pre-evolution ends at the requested time and leaves the cosmology as it was.",
 ["configurations", "inputs"], "kinds of initial conditions, options, every mode and point, ranks, threads, lattices",
 "The tests generate one field per run and compare nothing.",
 ["lib/gen/genConf.cpp", "lib/gen/momConf.cpp", "lib/gen/randXeon.cpp", "lib/gen/smoothXeon.cpp", "lib/gen/prepropa.cpp", "lib/scalar/normXeon.cpp", "lib/scalar/normCoreXeon.cpp", "lib/scalar/theta2CmplxXeon.cpp"], [("mode filling", "lib/gen/momConf.cpp"), ("patterns by position", "lib/gen/randXeon.cpp")], [], ["field and velocity after generation"],
 check=check("exhaustive enumeration of the kinds of initial conditions, their options, lattices, ranks and threads on the real generator with the random seeds fixed; every mode or point of field and velocity compared with what was asked for", "exploration",
  "Sides 8 to 12 (24 thorough), 1 to 4 ranks, 1 to 3 threads; not covered: strings read from a file, the legacy kinds vilgork and vilgors."))

prop("P26", "The vector math routines agree with the scalar functions on all lanes",
 "The vectorised sine, cosine, angle reduction, selection and pair functions give on every lane the value of the scalar function, whatever the other lanes hold and for each instruction set the build offers (SSE4.1, AVX, AVX2, FMA, AVX512): sine and cosine within a few units in the last place of one plus the rounding of the argument (single precision up to 1e7 with fused multiply-add and 1e5 without, double precision up to 1e15 and 1e12), an angle difference reduced modulo the period to its representative of smallest absolute value (exactly, either sign when it is half the period), the selections and pair sums and products exactly.",
 ["inputs"], "all single-precision floats in range, and double-precision values around every reduction boundary; every lane",
 "No test calls them directly.",
 ["include/utils/triSimd.h", "include/utils/simd.h"], [("argument reduction and polynomials", "include/utils/triSimd.h")], [], ["returned vectors"],
 check=check("exhaustive evaluation of the real vector routines, compiled for each instruction set: every single precision float of the range in every lane pattern, and every listed double around the reduction boundaries, against the scalar functions", "exploration",
  "sine, cosine, modulo, selection and pair functions; AVX512 only where the machine has it"))

prop("P27", "The axiton tracker records each marked point and groups connected dense points",
 "Once the mass is above the time threshold, a search of an angle field marks exactly the points whose field (or, if asked for, velocity) exceeds its threshold, once each and in every storage order of the field, up to the limit per rank. Each later reading appends to every record the value that its own point has at that time, whatever the order of the field is then, and the printed file has, for every marked point of any rank (ranks with none included), its coordinates, the number of readings before it was found and its whole history. For a non-relativistic field, grouping labels every point denser than the threshold, and no other, such that within a rank two dense points carry the same label exactly if they are connected by steps to dense neighbours, for any number of threads.",
 ["inputs", "histories", "configurations"], "patterns of marked points, measurement sequences, ranks",
 "No test reads the tracker's output.",
 ["lib/axiton/tracker.cpp", "include/axiton/trackerClass.h"], [("list of tracked points", "include/axiton/trackerClass.h")], [], ["tracker groups"],
 check=check("explicit enumeration of search/reading histories and dense-point patterns executed on the real tracker over ranks, threads and storage orders, checked against a reference model", "exploration",
  "About 37700 cases: every point alone in every order of folding; sets of points found at different times (5 geometries x 32 orders x 4 threshold settings), limits; grouping of one, two, lines, random and full patterns, folded and unfolded, 1 to 4 ranks, 1 and 3 threads."))
