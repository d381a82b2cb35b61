#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the properties are maintained here, one P() call each)."""
import json, os
OUT = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
rows = []
def P(id, title, statement, over, text, why, files, mech, observe, state=None):
    assert len(title) <= 80, title
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
         "observe_at": observe, "hook_needed": None}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    rows.append({"id": id, "title": title, "statement": statement,
                 "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

P("C01", "Gravity-model files load exactly the coefficients and header they contain",
  "Loading a well-formed ICGEM gravity-model file at any degree n and order m the file provides yields, for every (l,k) with l<=n and k<=min(l,m), exactly the C and S values written in the file (nearest double), whatever the order of the records, spacing, exponent letter or final newline; coefficients the file does not give are zero. "
  "Header fields (model name, GM, radius, maximum degree, errors, norm, tide system) are reported exactly as written, whether or not the values are followed by blanks. "
  "Asking for a degree the model does not have, or an order larger than the degree, is an error, and so is a file whose header lacks the gravity constant, radius, maximum degree or its end record, or gives a keyword without a value; lines longer than the documented line buffer are refused.",
  ["inputs"], "every well-formed gravity file (any header order, comments, spacing, record order, maximum degree) and every requested degree/order",
  "The two ICGEM test programs need a model file that is not in the repository, and the stable tests run neither; a test fixes one file, the claim is about every conforming file and truncation.",
  ["src/gravity/icgemio_rdhead.cpp", "src/gravity/icgemio_rddata.cpp", "src/gravity/parse_coefficients.cpp", "src/icgemio.hpp", "var/icgem/src/icgemio_rdhead.cpp", "var/icgem/src/icgemio_rddata.cpp"],
  [("header keyword scanner", "src/gravity/icgemio_rdhead.cpp"), ("record parser and zero fill", "src/gravity/icgemio_rddata.cpp")],
  ["return status of header/data parsing", "harmonic coefficients after loading"])
P("C02", "Malformed gravity-model files are refused without memory errors, aborts or hangs",
  "For any byte sequence presented as a gravity-model file (truncated, over-long lines, missing keywords, garbage numbers, degrees or orders negative or beyond the declared or requested maximum), reading it terminates and either reports an error or loads values that are in the file. "
  "It never reads or writes outside its objects, never aborts the process, and never reports success while a requested coefficient's record is unparsable.",
  ["inputs", "fault_sequences"], "every byte sequence offered as a model file, and every truncation point of a valid one",
  "No test feeds a malformed file; memory safety over all byte strings is not something sampled expected values can establish.",
  ["src/gravity/icgemio_rdhead.cpp", "src/gravity/icgemio_rddata.cpp", "src/gravity/parse_coefficients.cpp", "var/icgem/src/icgemio_rdhead.cpp", "var/icgem/src/icgemio_rddata.cpp"],
  [("bounds checks on degree/order", "src/gravity/icgemio_rddata.cpp"), ("line length checks", "src/gravity/icgemio_rdhead.cpp")],
  ["exit status under ASan/UBSan", "parse status"])
P("C03", "Harmonic-coefficient and 2-D matrix containers have safe value semantics",
  "A harmonic-coefficient set or 2-D/triangular matrix keeps every element independently: writing one element changes no other, every in-range element can be read back, and row/column views agree with element access. "
  "Copies are deep and equal, moves transfer the contents, self-assignment is harmless, resizing gives a usable object of the requested size, and no operation sequence leaks, double-frees or touches memory out of bounds. "
  "Removing the normalisation multiplies each coefficient of degree l, order k by sqrt((2-d0k)(2l+1)(l-k)!/(l+k)!) exactly once.",
  ["histories", "inputs"], "every sequence of construct/resize/copy/move/assign/scale/write/read operations at every size",
  "No stable test uses the containers beyond construction; aliasing and lifetime errors depend on the operation history.",
  ["src/harmonic_coeffs.hpp", "src/gravity/harmonic_coeffs.cpp", "src/cmat2d.hpp", "src/factorial.hpp", "var/icgem/src/harmonic_coeffs.hpp", "var/icgem/src/harmonic_coeffs.cpp", "var/icgem/src/compact2dmat.hpp"],
  [("allocation/copy/move/resize", "src/gravity/harmonic_coeffs.cpp"), ("storage index arithmetic", "src/cmat2d.hpp")],
  ["element accessors", "ASan/LSan reports"])
P("C04", "Gravity acceleration is the gradient of the spherical-harmonic potential",
  "For any coefficient set, any degree/order truncation and any exterior position (poles and equator included), the acceleration equals the gradient of the truncated spherical-harmonic geopotential, and the gravity-gradient matrix returned with it is its Jacobian, symmetric and trace free. "
  "The Legendre/solid-harmonic terms obey their defining recurrence and closed form at every degree and order, the result is independent of scratch-matrix history, and coefficients beyond the truncation have no influence.",
  ["inputs", "configurations"], "every coefficient set, degree <= 120, order <= degree, exterior position",
  "The acceleration tests need model files, reference files and libraries that are absent; they compare a handful of points of one model at one truncation.",
  ["src/gravity/gravity_acceleration.cpp", "src/gravity/lagrange_poly.cpp", "src/egravity.hpp", "var/icgem/src/gravity_acceleration.cpp", "var/icgem/src/lagrange_poly.cpp"],
  [("Cunningham recursion", "src/gravity/lagrange_poly.cpp"), ("acceleration and partials sums", "src/gravity/gravity_acceleration.cpp")],
  ["acceleration and gradient returned"])
P("C05", "Third-body attraction is exact and the Sun and Moon are placed right",
  "The third-body perturbing acceleration equals GM*((s-r)/|s-r|^3 - s/|s|^3) for any satellite and body position, and the partials returned with it are its derivative with respect to the satellite position. "
  "The analytic low-precision Sun and Moon positions (mean equator and equinox of date) equal the series they cite at every epoch between 1950 and 2050, stay within those series' accuracy of an independent theory, are smooth in time, and the ephemeris wrapper returns the requested body's state and signals its failure.",
  ["inputs", "histories"], "every pair of positions, every epoch 1950-2050, every kernel-loading history",
  "No runnable test calls these functions; derivative correctness needs a differential oracle over all geometries.",
  ["src/gravity/point_mass_acceleration.cpp", "src/planets/sunpos.cpp", "src/planets/moonpos.cpp", "src/planets/cspice_utils.cpp", "src/sunmoon.cpp", "src/planetpos.hpp"],
  [("point mass formula", "src/gravity/point_mass_acceleration.cpp"), ("series", "src/planets/sunpos.cpp, src/planets/moonpos.cpp"), ("kernel book-keeping", "src/planets/cspice_utils.cpp")],
  ["accelerations, partials, positions"])
P("C06", "Orbit elements and states convert both ways and propagate along Kepler orbits",
  "For every elliptic state, including near-circular, equatorial, polar and retrograde ones, converting to Keplerian elements and back reproduces the state; the alternative converters agree with each other, and no call yields a NaN or an aborted process. "
  "Kepler's equation is solved to full precision for all eccentricities in [0,1) and all mean anomalies, or the failure is reported (only possible above 0.99). "
  "Two-body propagation over any interval conserves energy and angular momentum, composes (a then b equals a+b), returns after one period, and the state-transition and state-partial matrices equal the numerical derivatives away from the circular and equatorial singularities of the elements; rotation matrices are orthonormal.",
  ["inputs"], "every elliptic orbit state (e in [0,1), all inclinations/anomalies) and time interval",
  "The only tests are textbook single cases that need absent libraries; singular and boundary geometries are never exercised.",
  ["src/astrodynamics/kepler.cpp", "src/astrodynamics/kepler2state.cpp", "src/astrodynamics/state2kepler.cpp", "src/astrodynamics/propagate_state.cpp", "src/astrodynamics/state_partials.cpp", "src/astrodynamics/perifocal.cpp", "src/astrodynamics/pos2ra.cpp", "src/astrodynamics.hpp"],
  [("Kepler solver", "src/astrodynamics/kepler.cpp"), ("element conversions", "src/astrodynamics/state2kepler.cpp"), ("STM", "src/astrodynamics/propagate_state.cpp")],
  ["returned elements/states/matrices/status"])
P("C07", "Eclipse factors are the visible fraction of the solar disc",
  "For every satellite and Sun position at or above the Earth's surface each shadow model returns a number in [0,1]: exactly 1 when the whole solar disc stands above the limb and exactly 0 in full shadow. "
  "In the penumbra the conical model equals the unocculted fraction of the solar disc as seen from the satellite (planar discs of the apparent radii), so it is continuous and monotone along any path into shadow; on the sunlit side no model ever reports shadow.",
  ["inputs"], "every satellite position above the Earth's surface and every Sun position",
  "The shadow test compares models along one recorded orbit file that is absent; penumbra boundaries are sets of tiny measure that samples miss.",
  ["src/astrodynamics/occultation.cpp", "src/astrodynamics.hpp"],
  [("shadow geometry", "src/astrodynamics/occultation.cpp")], ["returned factor"])
P("C08", "Drag and solar-pressure accelerations match their formulas and own derivatives",
  "Atmospheric drag acts opposite to the velocity relative to the co-rotating atmosphere with magnitude 0.5*rho*Cd*A/m*|v|^2, and solar radiation pressure acts away from the Sun with inverse-square magnitude; both are zero when their driver (density, area, coefficient) is zero. "
  "The partial derivatives returned with them, with respect to position, velocity and the estimated coefficient, equal the numerical derivatives of the acceleration for every state and every coefficient value.",
  ["inputs"], "every state, density and its gradient, area/mass, coefficient",
  "No test calls these functions in this environment; derivative consistency is a claim over the whole state space.",
  ["src/astrodynamics/drag.cpp", "src/astrodynamics/solar_radiation.cpp", "src/astrodynamics.hpp"],
  [("drag and partials", "src/astrodynamics/drag.cpp"), ("srp and partial", "src/astrodynamics/solar_radiation.cpp")], ["acceleration and partial matrices"])
P("C09", "The multistep ODE integrator meets its tolerances from any history of calls",
  "For any smooth initial-value problem and tolerances, each successful return gives the solution at the requested time with error consistent with the tolerances, forwards or backwards, at any sequence of output times, with the same result whether the interval is covered in one call or many; stiffness, tolerance or work-limit stops are reported by the status and can be continued. "
  "Results depend only on the inputs of the calls (never on uninitialised state or earlier problems), invalid input is reported rather than integrated, and the derivative function is never evaluated past a stop time declared as a hard limit.",
  ["inputs", "histories"], "every smooth problem, tolerance pair, direction, output grid and call history",
  "The stable example prints one problem at fixed forward times without checking values; error control, direction changes, restarts and continuation are not reached.",
  ["src/integrators/sgode_de.cpp", "src/integrators/sgode_step.cpp", "src/integrators/sgode_intrp.cpp", "src/integrators.hpp", "var/ode_solvers/sgode_de.cpp", "var/ode_solvers/sgode_step.cpp", "var/ode_solvers/sgode_intrp.cpp"],
  [("driver", "src/integrators/sgode_de.cpp"), ("variable order step", "src/integrators/sgode_step.cpp"), ("interpolation", "src/integrators/sgode_intrp.cpp")],
  ["status, time and solution returned", "derivative-call log"])
P("C10", "The embedded Runge-Kutta integrator meets its tolerances and reports failure",
  "For any smooth non-stiff problem the Runge-Kutta-Fehlberg solver reaches the requested output time with error proportional to the requested tolerance, forwards and backwards, over any sequence of output times, and its single step has fifth-order local accuracy with the published coefficients. "
  "Its step-size control adapts efficiently, results never depend on uninitialised state, and impossible tolerances or invalid calls are reported by the status.",
  ["inputs", "histories"], "every smooth problem, tolerance, direction and output grid",
  "The only program that constructs it never executes its loop.",
  ["var/ode_solvers/rkf45_rkfs.cpp", "var/ode_solvers/rkf45_fehl.cpp", "var/ode_solvers/rkf45.hpp"],
  [("step controller", "var/ode_solvers/rkf45_rkfs.cpp"), ("Fehlberg tableau", "var/ode_solvers/rkf45_fehl.cpp")], ["status, solution, derivative-call log"])
P("C11", "The Kalman filters equal the least-squares estimate and keep a valid covariance",
  "For any linear measurement sequence, any order and any dimension, the filtered state and covariance equal the batch least-squares solution with the same prior and weights; the covariance stays symmetric positive semi-definite and never grows by a measurement update, and a time update maps it by the supplied transition matrix (plus noise). "
  "Each per-beacon, per-satellite or global parameter occupies its own slot: setting or reading one parameter of one beacon never touches another.",
  ["histories", "inputs"], "every sequence of time and measurement updates, dimension, beacon set and parameter layout",
  "The one filter test is a script that needs absent modules; the guarantee is over whole update histories.",
  ["src/filters/ekf.hpp", "src/filters/filters.hpp"],
  [("update equations", "src/filters/ekf.hpp"), ("parameter index arithmetic", "src/filters/filters.hpp")], ["estimates, covariance, parameter accessors"])
P("C12", "Polynomial models evaluate and copy the polynomial they hold",
  "A polynomial model of any order evaluates to the polynomial defined by its coefficients at every argument relative to its reference, and its copies and moves are equal and independent of the source. "
  "No sequence of construction, resizing, copying, moving and destruction leaks, double-frees or reads unset values.",
  ["histories", "inputs"], "every order, coefficient set, argument and object history",
  "No test instantiates the model here.",
  ["src/filters/models.hpp"], [("Horner evaluation and storage", "src/filters/models.hpp")], ["evaluated values; sanitizer reports"])
P("C13", "Earth-orientation tables load exactly, copy deeply and interpolate consistently",
  "Reading an IERS C04 file for a date range returns every row in the range with the file's values (in documented units), one per day on consecutive days, and fails when the range is not covered, a day is missing, repeated or out of order, or a row is malformed. "
  "Interpolation reproduces the tabulated values at the tabulated epochs up to the documented tidal corrections, is exact for polynomial data of the interpolation degree (values are used as tabulated: a leap second is not bridged), and reports an error outside the table; copies, moves and resizes of a table hold the same values and share no memory.",
  ["inputs", "histories"], "every file, date range, epoch and object history",
  "The examples that read EOP data need a data file and libraries that are absent; lifetime and boundary behaviour depend on histories and edge epochs.",
  ["src/iers/parse_c04.cpp", "src/iers/eop_interpolate.cpp", "src/eop.hpp"],
  [("C04 reader", "src/iers/parse_c04.cpp"), ("Lagrange interpolation + corrections", "src/iers/eop_interpolate.cpp"), ("table memory", "src/eop.hpp")], ["tables and interpolated parameters, status"])
P("C14", "DORIS RINEX headers are decoded field by field or refused",
  "Opening any well-formed DORIS RINEX 3 observation file reports the header as written: version, satellite, observation types in file order with their scale factors, time of first observation, L1/L2 date offset, the list of ground beacons with their identifiers, names and frequency shift factors, and the time-reference stations. "
  "A header that lacks required records, has unknown types, lines shorter than their labels, a time-reference station that is not listed or inconsistent counts is refused with an error, never with memory errors or an abort, whatever the bytes.",
  ["inputs"], "every header text, valid or not",
  "The RINEX programs need absent observation files and libraries; one sample file cannot cover header layouts or corruption.",
  ["src/rinex/read_rnx_header.cpp", "src/rinex/doris_rinex.cpp", "src/doris_rinex.hpp", "src/doris/doris_system_info.cpp"],
  [("header label dispatch", "src/rinex/read_rnx_header.cpp"), ("beacon/obs code parsing", "src/doris/doris_system_info.cpp")], ["parsed header; constructor outcome"])
P("C15", "RINEX data blocks are iterated completely and in order, and damage is reported",
  "Iterating the data blocks of a DORIS RINEX file yields every epoch exactly once in file order with its time, clock offset, event flag and beacon count, and for every beacon every observable's scaled value and flags as written, absent fields being marked absent; Doppler counts derive from the phases of consecutive observations of the same beacon. "
  "Reaching the end is reported distinctly from a malformed block or one cut inside a field, returning to a saved stream position yields the same sequence again, and no input causes a memory error or abort.",
  ["inputs", "fault_sequences", "histories"], "every data section, every truncation point, every interleaving of iterate/rewind",
  "No runnable test reads an observation file; truncation points and corrupted records form a space no fixture samples.",
  ["src/rinex/doris_rinex.cpp", "src/rinex/rnx_datablock_iterator.cpp", "src/doris_rinex.hpp"],
  [("epoch line and record parser", "src/rinex/doris_rinex.cpp"), ("block iterator", "src/rinex/rnx_datablock_iterator.cpp")], ["iterator status and block contents"])
P("C16", "Relative frequency-offset fits recover the trend in the observations",
  "Fitting the relative frequency offset of a receiver over any stretch of observations first averages every run of the requested number of consecutive usable samples (value and time alike) and returns the least-squares line through the averages, hence exactly the line for noise-free evenly spaced data, whatever the number of samples, gaps or averaging window. "
  "Samples without the offset and empty blocks are skipped, the fit never reads outside its samples, and too few usable samples are reported as an error.",
  ["inputs"], "every observation series, length, gap pattern and averaging interval",
  "The fit programs need absent files; remainders of windows and short series are only reached by generated inputs.",
  ["src/rinex/fit_rfo.cpp", "src/doris/fit_rfo.cpp", "src/doris/extract_doppler_count.cpp"],
  [("window averaging and LS fit", "src/rinex/fit_rfo.cpp")], ["returned line parameters/status"])
P("C17", "DORIS system constants and combinations are physically consistent",
  "For every frequency shift factor the beacon's nominal frequencies equal the defined base frequencies scaled by the factor, the ionosphere-free combination removes any delay proportional to the inverse square of frequency while leaving a common range unchanged, and the ionosphere-free phase centre is the same combination of the two antenna phase centres for every beacon antenna generation. "
  "Beacon descriptions parse to the id, name, DOMES, antenna type and shift they contain, unknown antennas or malformed descriptions are errors, and lookups in a beacon table return the matching entry or report that there is none.",
  ["inputs"], "every shift factor, range/TEC pair, beacon description and table",
  "No runnable test covers any of this; the identities must hold for every shift factor and input line.",
  ["src/doris/doris_system_info.cpp", "src/doris_system_info.hpp", "src/doris_utils.hpp", "src/doris_observation_equations.hpp", "src/beacon_tbl/beacon_tbl.cpp", "src/beacon_tbl.hpp"],
  [("frequency and antenna tables", "src/doris/doris_system_info.cpp"), ("beacon table", "src/beacon_tbl/beacon_tbl.cpp")], ["frequencies, phase centres, parsed stations"])
P("C18", "Antenna phase corrections interpolate the tabulated pattern on 0-90 degrees",
  "For each ground-antenna type and frequency band the phase-centre variation at a tabulated zenith angle is the tabulated value, between two tabulated angles it is their linear interpolation, and it is continuous over the whole closed interval from zenith to horizon. "
  "Angles outside that interval are flagged or refused consistently for every antenna type, and no angle causes an out-of-bounds read.",
  ["inputs"], "every antenna type, band and angle",
  "The PCV test program cannot be built here and prints values without checking boundaries.",
  ["src/antenna_pcv.hpp"], [("table lookup", "src/antenna_pcv.hpp")], ["correction value and flag"])
P("C19", "NRLMSISE-00 densities match the published model for every call history",
  "For every valid input where the published model itself is finite and non-negative, the atmosphere model returns its NRLMSISE-00 densities and temperatures (with the CODATA constants the code documents), for every switch setting, selected gas and unit choice. "
  "A result depends only on that call's input: it is the same for a fresh model object, a reused one after any other calls, or several objects used in turn, also when the objects are used by concurrent threads.",
  ["inputs", "histories", "configurations"], "every date/position/altitude/local time/flux/ap input, switch vector, unit flag, and interleaving of calls on any number of model objects",
  "The 17-case unit test cannot be built here and uses one object in one order; cached state between calls is a history property.",
  ["src/atmosphere/nrlmsise00_globe7.cpp", "src/atmosphere/nrlmsise00_gtd7.cpp", "src/atmosphere/nrlmsise00_gts7.cpp", "src/atmosphere/nrlmsise00_glob7s.cpp", "src/atmosphere/nrlmsise00_densu.cpp", "src/atmosphere/nrlmsise00_densm.cpp", "src/atmosphere/nrlmsise00_ghp7.cpp", "src/atmosphere/nrlmsise00.hpp"],
  [("spherical harmonic expansion caches", "src/atmosphere/nrlmsise00_globe7.cpp"), ("profile integration", "src/atmosphere/nrlmsise00_gts7.cpp")], ["density and temperature outputs"])
P("C20", "Space-weather data reach the atmosphere model for the right day and 3-hour slot",
  "Reading solar-flux and geomagnetic data from a CelesTrak CSV file for any covered date range returns each day's values as in the file, and fails when a required day is missing, out of order or malformed. "
  "The atmosphere-model input assembled for any instant (to the millisecond) uses the previous day's observed 10.7 cm flux, the right 81-day average, the daily Ap, the 3-hourly ap history ending in the slot of that instant and the local solar time of the position, regardless of the sequence of earlier requests.",
  ["inputs", "histories"], "every data file, date, time of day and request sequence",
  "The CSV feed test runs one date sequence and needs absent libraries; slot boundaries and day changes after arbitrary histories are not reached.",
  ["src/var/celestrak_swdata.cpp", "src/var/celestrak.hpp", "src/atmosphere/nrlmsise00_get_flux_data.cpp"],
  [("CSV row parser", "src/var/celestrak_swdata.cpp"), ("hourly ap bookkeeping", "src/atmosphere/nrlmsise00_get_flux_data.cpp")], ["parsed rows; model input fields; status"])
P("C21", "The exponential atmosphere is positive, decreasing and continuous to its tables",
  "The exponential atmospheric density at every altitude equals the tabulated base density times the exponential decay of the altitude's band, uses the published base altitude, density and scale height of that band, and hits the next base density to within the table's rounding at each band boundary. "
  "It is positive, finite and strictly decreasing within each band for all altitudes from the ground up.",
  ["inputs"], "every altitude from 0 to 1500 km and beyond",
  "The existing program prints values without an oracle and cannot be built here; each band needs its own probe.",
  ["src/atmosphere/exponential_atmospheric_model.cpp", "src/atmosphere.hpp"], [("band table", "src/atmosphere/exponential_atmospheric_model.cpp")], ["density"])
P("C22", "Satellite attitude and correction files give the record bracketing the epoch",
  "Asking for the attitude at any epoch inside the file returns the unit quaternion interpolated between the two records that bracket it (the record itself at a record's epoch), for any forward sequence of epochs, while a step back is served or refused but never answered wrongly; the satellite mass and centre-of-gravity corrections are the last ones in force at the epoch (a record applies from its own epoch on), with every digit of the file's values. "
  "Epochs outside the data and malformed or truncated files are reported as errors without memory errors, aborts or use of unset records.",
  ["inputs", "histories"], "every attitude/correction file, epoch sequence and truncation",
  "No test reads such a file here.",
  ["src/satellites/jason3_quaternions.cpp", "src/satellites/jason3_quaternions.hpp", "src/satellites/satellite_corrections.cpp", "src/satellites.hpp"],
  [("buffered quaternion reader", "src/satellites/jason3_quaternions.cpp"), ("correction parser", "src/satellites/satellite_corrections.cpp")], ["quaternion/correction and status"])
P("C23", "Terrestrial and celestial frames convert by proper rotations and back",
  "Transforming positions between the terrestrial and celestial frames with any Earth-orientation data is a proper rotation: norms and angles are preserved and the reverse transformation returns the original to rounding error. "
  "Velocities transform consistently with the time derivative of the transformed position, the Earth turning at the rate its length of day gives and precession, nutation and polar motion held, and the composed transformation equals the product of its documented stages.",
  ["inputs"], "every epoch, Earth-orientation value and position/velocity",
  "No test of these transformations can be built here; orthogonality and derivative identities are claims over all epochs.",
  ["src/itrs2gcrs.cpp", "src/orbit_integration.hpp"], [("rotation chain", "src/itrs2gcrs.cpp")], ["matrices and transformed vectors"])
P("C24", "Equations of motion and their variations are consistent for orbit integration",
  "The right-hand side handed to the integrator returns as derivative of the position the velocity, as derivative of the velocity the sum of the modelled accelerations at that epoch and state, and as derivative of the transition matrix the Jacobian of that acceleration (without the Sun's partials, and at constant projected area) times the matrix. "
  "It depends only on the epoch, the state and the configured models, not on previous evaluations.",
  ["inputs", "histories"], "every epoch, state and evaluation history",
  "Only complete orbit-determination programs reach it, and none can be built here.",
  ["src/variational_equations.cpp", "src/orbit_integration.hpp"], [("variational equations", "src/variational_equations.cpp")], ["derivative vector"])
P("C25", "Station coordinates and relativistic clock terms follow their published formulas",
  "Extrapolating beacon coordinates from a SINEX solution returns, for each requested beacon, position plus velocity times elapsed years from the solution's reference epoch, in the requested order, and a missing beacon is an error or skipped exactly as the caller chose. "
  "The relativistic clock-frequency correction equals (U + v^2/2)/c with the Earth's monopole and J2 potential (geocentric latitude) for every position and velocity, and configuration look-ups return the configured value or report that it is absent.",
  ["inputs", "configurations"], "every station list, epoch, position and configuration document",
  "The only test program needs an absent SINEX file and library.",
  ["src/ids/get_pdop_crd.cpp", "src/relativity/relativistic_clock_correction.cpp", "src/var/yaml_utils.cpp", "src/var_utils.hpp"],
  [("extrapolation", "src/ids/get_pdop_crd.cpp"), ("clock correction", "src/relativity/relativistic_clock_correction.cpp")], ["coordinates/corrections, status"])
P("C26", "Web download delivers the complete remote file or reports failure",
  "When downloading reports success, the local file is byte-for-byte the resource the server sent; when the transfer, connection, HTTP status or local write fails at any point, or the server only answers with a redirect that is not followed, an error is returned and no partial or foreign file is left under the requested name. "
  "A failure never destroys something the call did not create (a forced download gives up the previous content of the file it replaces), and no file handle or memory is leaked by any outcome.",
  ["fault_sequences", "inputs"], "every resource size and content, every server/transport fault, every local write fault point",
  "The download test needs the Internet and checks nothing after the call; faults in the middle of a transfer or at file close are never produced.",
  ["src/web/http_get.cpp", "src/cweb.hpp"], [("curl write loop and cleanup", "src/web/http_get.cpp")], ["return code, local file, open descriptors"])
P("C27", "Flag sets and packed measurements keep every member independent",
  "In every flag set (bit set over an enumeration, satellite-event flags, packed measurement flags) setting, clearing or testing one member affects only that member, for every member and every sequence of operations; setting several members at once sets them all, and a freshly built or reset set contains exactly the members given. "
  "A packed measurement returns the value and flags stored in it.",
  ["histories", "inputs"], "every operation sequence over every member",
  "The stable flag programs only print a few operations and always exit zero.",
  ["src/enum_bitset.hpp", "src/doris_flags", "var/flags.cc", "var/compound_measurement.cc"], [("bit masks", "src/enum_bitset.hpp")], ["membership tests"])
P("C28", "Table interpolators reproduce their nodes and report out-of-range arguments",
  "Linear, quadratic and other table interpolators return the tabulated value at every node and the polynomial's value for polynomial data of their degree in between (linear when a table has too few nodes). "
  "Arguments below or above the table are reported by distinct statuses with the end value, and no table length (one node or more) or argument leads outside the table.",
  ["inputs", "histories"], "every table (length, spacing), argument and sequence of look-ups",
  "The interpolation program is built but not part of the stable tests and checks nothing.",
  ["var/intrp.cc"], [("interval search", "var/intrp.cc")], ["status and value"])
P("C29", "Data-preparation scripts preserve every record they convert or merge",
  "The helper scripts convert data without loss: every coefficient line of a Fortran-style gravity file is rewritten with the same number in C notation and all other text unchanged (blanks at line ends aside), merged Earth-orientation series contain each day once in time order with the values of the newest source, station logs parse to the records they contain, C headers gain C linkage and keep every line, downloaded data are stored as served, orbit files give every state in SI units, and plotted columns are the file's. "
  "Files already in the target form pass through unchanged, and malformed or unreachable input is reported by the exit status instead of silently dropped or stored as data.",
  ["inputs"], "every input file of the documented formats and every merge of day ranges",
  "No test covers the scripts.",
  ["script/gfc_fortran2c.py", "var/icgem/script/gfc_fortran2c.py", "script/fetch_iers_c04.py", "script/pydoris/pydoris/log/ids_log_parser.py", "script/jpl/c2cpp_header.py", "script/ids_logs2station_info.py", "script/fetch_celestrak_space_weather_data_csv.py", "script/scatterplot.py", "var/cartesian2keplerian/sp3spit.py"],
  [("line rewriting", "script/gfc_fortran2c.py"), ("merge", "script/fetch_iers_c04.py")], ["script output"])
P("C30", "Prototype orbit, troposphere and Legendre formulas agree with theory",
  "The stand-alone Cartesian-to-Keplerian variants print, for every elliptic orbit that is neither circular nor equatorial, elements that rebuild the given state, angles in the right quadrant, and so agree with each other; the stand-alone Saastamoinen delays equal the IERS formulas, the renormalised Legendre functions are orthonormal, and the Runge-Kutta listing of the notes converges at fourth order. "
  "None of them reads unset memory or yields a NaN for a valid input.",
  ["inputs"], "every elliptic orbit, degree and order, site and step",
  "None of these programs is part of any test.",
  ["var/cartesian2keplerian/cartesian2keplerian.cc", "var/saastamoinen.cc", "var/legendre.cc", "doc/PhD-notes/source/rk4.cpp"],
  [("element formulas", "var/cartesian2keplerian/cartesian2keplerian.cc"), ("delay formulas", "var/saastamoinen.cc"), ("recurrence", "var/legendre.cc")], ["printed elements, returned values"])
with open(OUT, "w") as f:
    for r in rows: f.write(json.dumps(r, ensure_ascii=False) + "\n")
print(len(rows))
