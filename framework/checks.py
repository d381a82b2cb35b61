"""The registered checks: which drivers decide which property."""
from . import scripts
from .core import Driver, VERIF, REPO

CHECKS = {}
NOT_APPLICABLE = {}


def C(pid, **kw):
    CHECKS[pid] = kw


SRC = ["src"]
VARI = ["var/icgem/src"]
IO = "icgemio_*.cpp"


def icgem_drivers(groups):
    a = Driver("icgem_src", src=[VERIF + "/drivers/icgem.cpp"], repo=["src/gravity/icgemio_*.cpp", "src/gravity/harmonic_coeffs.cpp", "src/gravity/parse_coefficients.cpp"],
               inc=SRC, defs=["VARIANT_SRC"], flavours=["asan", "memcheck"], memcheck_div=40)
    b = Driver("icgem_var", src=[VERIF + "/drivers/icgem.cpp"], repo=["var/icgem/src/icgemio_*.cpp", "var/icgem/src/harmonic_coeffs.cpp"],
               inc=VARI, flavours=["asan"])
    out = [a, b]
    for d in out:
        d.groups = groups
    if "header_fields" in groups:
        for d in (a, b):  # printing of the header exists in DEBUG builds only
            e = Driver(d.name + "_dbg", src=d.src, repo=d.repo, inc=d.inc, defs=d.defs + ["DEBUG"])
            e.groups = ["header_fields"]
            out.append(e)
        a.groups = b.groups = [g for g in groups if g != "header_fields"]
    return out


C("C01", drivers=icgem_drivers(["valid_load", "large_model", "header_fields", "header_refuse", "missing_record"]),
  technique="runtime monitoring: independent writer/shadow model over generated ICGEM files, ASan+UBSan and memcheck",
  rule="Each case writes a random well-formed ICGEM file (header order, blanks, remarks, exponent letters, record order, missing degree one, line ends) and loads several degree/order truncations; distinct = different (max degree, requested degree/order, record count, line-end) tuples actually loaded and compared coefficient by coefficient.",
  assumptions=["files with lines under 255 (header) / 511 (data) characters, the documented limit of the reader"],
  level_note="Every coefficient, constant and flag of each generated load is compared with the generator's own record; holds on the executions run.")
C("C02", drivers=icgem_drivers(["unparsable_record", "mutated", "truncations", "garbage"]),
  technique="runtime monitoring: mutation/truncation workloads under ASan+UBSan/memcheck with a value-provenance oracle",
  rule="Each case mutates a valid file (13 mutation kinds, up to 4 at once), cuts it at every byte, or builds it from hostile tokens; distinct = different (mutation list, size, request) tuples. A success is accepted only if every requested coefficient has a record with that value.",
  level_note="Memory errors, aborts, hangs, foreign or missing values on any generated byte string are violations; bounded by the generated corpus.")
C("C03", drivers=[
    Driver("containers_src", src=[VERIF + "/drivers/containers.cpp"], repo=["src/gravity/harmonic_coeffs.cpp"], inc=SRC, defs=["VARIANT_SRC"], flavours=["asan", "memcheck"], memcheck_div=30),
    Driver("containers_var", src=[VERIF + "/drivers/containers.cpp"], repo=["var/icgem/src/harmonic_coeffs.cpp"], inc=VARI)],
  technique="runtime monitoring: operation histories against a shadow container under ASan+UBSan, allocation balance, memcheck",
  rule="Each case is a random history of construct/resize/copy/move/assign/write/denormalise operations over several objects, compared element by element with a shadow; distinct = different operation histories.",
  level_note="Shadow-model comparison after every operation plus allocation balance and sanitizers on the histories run.")


GRAV = ["src/gravity/gravity_acceleration.cpp", "src/gravity/lagrange_poly.cpp", "src/gravity/harmonic_coeffs.cpp"]
GSRC = [VERIF + "/drivers/gravity.cpp"]
GRAVV = ["var/icgem/src/gravity_acceleration.cpp", "var/icgem/src/lagrange_poly.cpp", "var/icgem/src/harmonic_coeffs.cpp"]
C("C04", drivers=[
    Driver("gravity_src", src=GSRC, repo=GRAV, inc=SRC, defs=["VARIANT_SRC"]),
    Driver("gravity_dbg", src=GSRC, repo=GRAV, inc=SRC, defs=["VARIANT_SRC", "DEBUG", "NDEBUG"]),
    Driver("gravity_var", src=GSRC, repo=GRAVV, inc=VARI),
    Driver("gravity_var_dbg", src=GSRC, repo=GRAVV, inc=VARI, defs=["DEBUG", "NDEBUG"])],
  technique="runtime monitoring: differential oracle (independent potential, automatic second derivatives in long double) under ASan+UBSan",
  rule="Each case evaluates acceleration and gradient through every public overload at one position for one coefficient set and truncation; distinct = different (family, degree, order, model degree, position kind) tuples.",
  assumptions=["exterior positions (r >= R)", "degree <= 120, where un-normalised solid harmonics stay within double range"],
  level_note="Every component compared with the oracle to ~1e-12 of the size of the terms summed, on the executions run.")


C05R = ["src/gravity/point_mass_acceleration.cpp", "src/planets/*.cpp", "src/sunmoon.cpp"]
C("C05", drivers=[Driver("thirdbody", repo=C05R, inc=SRC, defs=["NEW_EOP"], flavours=["asan", "memcheck"], memcheck_div=25),
                  Driver("thirdbody_dbg", src=[VERIF + "/drivers/thirdbody.cpp"], repo=C05R, inc=SRC, defs=["NEW_EOP", "DEBUG"])],
  technique="runtime monitoring: closed-form and published-series oracles, recording stand-in for the SPICE kernel pool, ASan+UBSan and memcheck",
  rule="Each case compares every overload at one geometry/epoch with the formula or series evaluated independently, or replays a random kernel-loading history against a recording SPICE pool; distinct = different geometry scales, epoch days and loading histories.",
  assumptions=["the external CSPICE library is replaced by a recording stand-in; the external ggdatetime/iers2010 headers by shims"],
  level_note="Accelerations to rounding error, positions to 1 km of the cited series and to its stated accuracy of Meeus' theory; holds on the executions run.")


AST = ["src/astrodynamics/*.cpp"]
C("C06", drivers=[Driver("astro", repo=AST, inc=SRC),
                  Driver("astro_branchless", src=[VERIF + "/drivers/astro.cpp"], repo=AST, inc=SRC, defs=["BRANCHLESS", "ASSERT_ERROR", "DEBUG"]),
                  Driver("astro_iter", src=[VERIF + "/drivers/astro.cpp"], repo=AST, inc=SRC, defs=["COUNT_KEPLER_ITERATIONS"], flags=["-O2"])],
  technique="runtime monitoring: singularity-free two-body oracle (long double), round-trip/conservation/derivative monitors, ASan+UBSan",
  rule="Each case is one orbit (eccentricity, inclination and angle classes incl. 0, pi/2, pi, exactly circular, equatorial, retrograde, axis aligned) taken through every converter, propagator and partial; distinct = different (e, i, angle cell, interval) tuples.",
  assumptions=["elliptic orbits with e <= 0.99 (Kepler solver: e < 1)"],
  level_note="Every converter's elements rebuild the state, propagation equals the two-body oracle, matrices equal high-order numerical derivatives; on the executions run.")


C("C07", drivers=[Driver("shadow", repo=["src/astrodynamics/occultation.cpp"], inc=SRC)],
  technique="runtime monitoring: apparent-disc oracle (long double) over random, collinear and contact geometries, ASan+UBSan",
  rule="Each case is one satellite/Sun geometry (random, exactly collinear, terminator, inner/outer contact, surface, annular) evaluated by every model, or a sampled passage through the shadow; distinct = different (geometry kind, apparent Earth radius, fraction) tuples.",
  assumptions=["satellite on or outside the sphere of radius Re", "apparent discs treated as planar (the published formula); agrees with the fraction on the sphere to 3e-3"],
  level_note="Fraction compared with the disc oracle to ~1e-9, zones of the step models exactly away from their edges; on the executions run.")
C("C08", drivers=[Driver("forces", repo=["src/astrodynamics/drag.cpp", "src/astrodynamics/solar_radiation.cpp"], inc=SRC)],
  technique="runtime monitoring: closed-form and finite-difference oracles (long double), ASan+UBSan",
  rule="Each case is one state with random or degenerate parameters (zero density, area or coefficient; at rest; co-rotating; polar axis) through every overload; distinct = different (kind, rotation, speed, density) tuples.",
  level_note="Acceleration and every partial element compared with the closed form to ~1e-14 and with differences of the library's own acceleration; on the executions run.")


SGV = ["var/ode_solvers/sgode_*.cpp", "var/ode_solvers/rkf45_*.cpp"]


def ode(groups, src=True):
    out = [Driver("ode_var", src=[VERIF + "/drivers/ode.cpp"], repo=SGV, inc=["var/ode_solvers"], flavours=["asan", "memcheck"], memcheck_div=40)]
    if src:
        out.append(Driver("ode_src", src=[VERIF + "/drivers/ode.cpp"], repo=["src/integrators/sgode_*.cpp"], inc=[VERIF + "/shim_ode", "src/integrators"], defs=["VARIANT_SRC"], flavours=["asan", "memcheck"], memcheck_div=40))
        out.append(Driver("ode_src_o2", src=[VERIF + "/drivers/ode.cpp"], repo=["src/integrators/sgode_*.cpp"], inc=[VERIF + "/shim_ode", "src/integrators"], defs=["VARIANT_SRC"], flavours=["plain"]))
        out.append(Driver("ode_src_dbg", src=[VERIF + "/drivers/ode.cpp"], repo=["src/integrators/sgode_*.cpp"], inc=[VERIF + "/shim_ode", "src/integrators"], defs=["VARIANT_SRC", "DEBUG"]))
    out.append(Driver("ode_var_dbg", src=[VERIF + "/drivers/ode.cpp"], repo=SGV, inc=["var/ode_solvers"], defs=["DEBUG"]))
    for d in out:
        d.groups = groups
    return out


C("C09", drivers=ode(["sg_integrate", "sg_late_outputs", "sg_zigzag", "sg_history", "sg_sudden", "sg_kick", "sg_pole", "sg_status"]),
  technique="runtime monitoring: reference-solution and published-algorithm oracles, derivative-call log, poisoned storage, ASan+UBSan and memcheck",
  rule="Each case integrates one generated initial-value problem (10 families, dimension 1-42, both directions, random tolerances and output sequences, free/hard-stop/mixed calls), replays it under other storage contents and call histories, or provokes one status; distinct = different (family, dimension, direction, mode, tolerance, outputs) tuples.",
  assumptions=["well-conditioned problems (solution bounded by 1e6)"],
  level_note="Global error within 10x that of an independent transcription of the published algorithm plus 5 tolerances, work within 1.4x, on the executions run.")
C("C10", drivers=ode(["rk_integrate", "rk_late_outputs", "rk_order", "rk_pole", "rk_status"], src=False),
  technique="runtime monitoring: reference-solution, published-tableau and published-algorithm oracles, derivative-call log, poisoned storage, ASan+UBSan and memcheck",
  rule="Each case integrates one generated problem through a sequence of outputs, takes one tableau step at two sizes, or provokes one status; distinct = different (family, dimension, direction, tolerance, outputs) tuples.",
  level_note="Single steps equal the published tableau to rounding, global error within 4x of the published algorithm, work within 1.3x; on the executions run.")


C("C11", drivers=[Driver("filters", inc=SRC, flavours=["asan", "memcheck"], memcheck_div=40),
                  Driver("filters_dbg", src=[VERIF + "/drivers/filters.cpp"], inc=SRC, defs=["DEBUG"])],
  technique="runtime monitoring: batch least-squares oracle (long double) and parameter-slot shadow over generated update histories, ASan+UBSan and memcheck",
  rule="Each case is one history of time and measurement updates (dimension 1-20) compared with the batch solution after every step, or one history of parameter accesses on a filter with 1-60 beacons compared slot by slot; distinct = different (dimension/layout, operation sequence) tuples.",
  level_note="State and covariance to 1e-9 of the batch solution after each update; every slot exactly, on the histories run.")
C("C12", drivers=[Driver("polymodel", inc=SRC, flavours=["asan", "memcheck"], memcheck_div=10)],
  technique="runtime monitoring: operation histories against a shadow polynomial (long double), allocation balance, ASan+UBSan and memcheck",
  rule="Each case is a history of construct/resize/copy/move/assign/write operations on three models of one argument type (double, int, date), each evaluated after every step; distinct = different histories.",
  level_note="Coefficients and reference exactly, values to rounding; on the histories run.")


C("C13", drivers=[Driver("eop", repo=["src/iers/*.cpp"], inc=SRC, flavours=["asan", "memcheck"], memcheck_div=20),
                  Driver("eop_dbg", src=[VERIF + "/drivers/eop.cpp"], repo=["src/iers/*.cpp"], inc=SRC, defs=["DEBUG"])],
  technique="runtime monitoring: generated C04 files against the generator's rows, table histories against a shadow, polynomial oracle for interpolation, fault injection in the component interpolator, ASan+UBSan and memcheck",
  rule="Each case writes a C04 file (leap-second neighbourhoods included) and reads several date ranges, mutates one, runs a table history, or interpolates a polynomial table at nodes, in between and outside; distinct = different (rows, range), mutation lists, histories and (order, rows, epoch) tuples.",
  assumptions=["the external iers2010 tidal and Lagrange routines are replaced by analytic recording stand-ins; ggdatetime by a shim"],
  level_note="Every row and field exactly, interpolation to 2e-10; on the executions run.")


RNX = ["src/rinex/*.cpp", "src/doris/*.cpp"]


def rinex(groups, memdiv):
    out = [Driver("rinex", repo=RNX, inc=SRC, flavours=["asan", "memcheck"], memcheck_div=memdiv)]
    for d in out:
        d.groups = groups
    return out


C("C14", drivers=rinex(["hdr_decode", "hdr_refuse", "hdr_hostile"], 10),
  technique="runtime monitoring: generated headers against the generator's fields, mutation classes with known refusals, hostile bytes under ASan+UBSan and memcheck",
  rule="Each case writes one DORIS RINEX header (record order, blank trimming, observation type subsets, scale-factor records, 1-99 stations) and compares every reported field, or one with a known defect that has to be refused, or byte-level damage; distinct = different (sizes, options) tuples, defects and outcomes.",
  assumptions=["ggdatetime's parser is replaced by a shim"],
  level_note="Every field the interface reports, exactly; on the files generated.")
C("C15", drivers=rinex(["blk_iterate", "blk_damage", "blk_hostile", "blk_epoch_line", "blk_doppler", "blk_doppler_damage"], 10),
  technique="runtime monitoring: event log of iterated blocks against the generated file (order, exactly once, every field), damage classes with known outcome, ASan+UBSan and memcheck",
  rule="Each case writes one observation file (0-120 epochs, 0-60 beacons) and iterates it once or twice, skips, reads and differences blocks, or damages one block and requires everything before it intact and the damage reported; distinct = different file contents, (damage, position) tuples and outcomes.",
  assumptions=["ggdatetime's parser is replaced by a shim"],
  level_note="Every epoch, beacon, value and flag, exactly; on the files generated.")
C("C16", drivers=rinex(["fit_poly", "fit_errors", "fit_kalman"], 15),
  technique="runtime monitoring: independent least-squares oracle (long double) over the recorded samples, ASan+UBSan and memcheck",
  rule="Each case writes 1-3 observation files with a noise-free or noisy offset history (missing values, empty blocks, several spacings, scale factors), fits it with a random order, averaging window, time scale and date window and compares the model; distinct = different option tuples.",
  assumptions=["averaging windows are symmetric about their midpoint where exactness is required", "times within 7 digits of conditioning of the reference"],
  level_note="Model values to 1e-7 relative of the least-squares polynomial of the recorded samples; on the fits run.")


def sysinfo(groups, dbg=False):
    out = [Driver("sysinfo", repo=["src/doris/doris_system_info.cpp", "src/beacon_tbl/*.cpp"], inc=SRC, flavours=["asan", "memcheck"], memcheck_div=20)]
    if dbg:
        out.append(Driver("sysinfo_dbg", src=[VERIF + "/drivers/sysinfo.cpp"], repo=["src/doris/doris_system_info.cpp", "src/beacon_tbl/*.cpp"], inc=SRC, defs=["DEBUG"]))
    for d in out:
        d.groups = groups
    return out


C("C17", drivers=sysinfo(["frequencies", "observation_codes", "phase_center", "beacon_line", "beacon_table"]),
  technique="runtime monitoring: closed-form oracles (long double), generated station lines and beacon tables against the generator's fields, ASan+UBSan and memcheck",
  rule="Each case evaluates one shift factor and range/delay pair, one observation code, one antenna letter, one (good or damaged) station line, or one beacon table at several epochs; distinct = different input tuples.",
  assumptions=["ggdatetime's parser is replaced by a shim"],
  level_note="Frequencies to 1e-6 Hz, combinations to rounding, every parsed field exactly; on the executions run.")
C("C18", drivers=sysinfo(["pcv"], True) + [Driver("phselaw", inc=["var/antenna"])],
  technique="runtime monitoring: published tables with a linear-interpolation oracle at, beside, between and beyond the nodes, ASan+UBSan and memcheck, with and without DEBUG assertions",
  rule="Each case evaluates every antenna type and band at all 19 nodes, one ulp and 1e-9 rad beside them, at 40 random angles and 21 outside angles (negative, beyond the horizon, huge, infinite, NaN); distinct = different (antenna, band, angle cell) tuples.",
  level_note="Value to 1e-10 mm and flag at every angle tried.")


MSIS = dict(repo=["src/atmosphere/nrlmsise00_*.cpp", "src/atmosphere/nrlmsise_spline.cpp"], repo_exclude=["get_flux_data"], inc=SRC)
msis_ts = Driver("nrlmsise_tsan", src=[VERIF + "/drivers/nrlmsise.cpp"], flavours=["tsan"], **MSIS)
msis_ts.groups = ["threads"]
C("C19", drivers=[Driver("nrlmsise", flavours=["asan", "memcheck", "plain"], memcheck_div=20, **MSIS), msis_ts],
  technique="runtime monitoring: independent transcription of the published model as oracle, call-history monitor against fresh objects, ASan+UBSan, memcheck, TSan",
  rule="Each case evaluates 10-14 inputs (altitude edges and their neighbours, poles, local times, fluxes, ap arrays, switch vectors, units, gas selections) or one history of 14 calls over 1-3 objects; distinct = different (altitude, latitude, gas, switches, units) cells, histories and thread runs.",
  assumptions=["the CODATA constants of the repository's variant (those of the author's Fortran outputs) are the published model's"],
  level_note="Every density and temperature to 1e-9 relative, equality with a fresh object bit for bit; on the executions run.")


SWD = dict(repo=["src/var/celestrak_swdata.cpp", "src/atmosphere/nrlmsise00_get_flux_data.cpp", "src/atmosphere/nrlmsise00_params.cpp"], inc=SRC)
C("C20", drivers=[Driver("swdata", flavours=["asan", "memcheck"], memcheck_div=20, **SWD), Driver("swdata_dbg", src=[VERIF + "/drivers/swdata.cpp"], defs=["DEBUG"], flags=["-include", "cassert"], **SWD)],
  technique="runtime monitoring: generated data files against the generator's shadow values after random request histories, ASan+UBSan and memcheck, with and without DEBUG assertions",
  rule="Each case resolves one (good or damaged) line, reads 8 day ranges from one (good, gapped, cut or reordered) file, or drives one feed through 25 updates (slot boundaries, day changes, jumps back and forth, uncovered days); distinct = different files and request histories.",
  assumptions=["times are used to the millisecond, as stored"],
  level_note="Every value exactly; on the executions run.")


SATF = dict(repo=["src/satellites/*.cpp"], inc=SRC)
C("C22", drivers=[Driver("satfiles", flavours=["asan", "memcheck"], memcheck_div=20, **SATF), Driver("satfiles_dbg", src=[VERIF + "/drivers/satfiles.cpp"], defs=["DEBUG"], **SATF)],
  technique="runtime monitoring: generated attitude and correction files against shadow records and a great-circle oracle (long double) over request histories, ASan+UBSan and memcheck",
  rule="Each case drives one attitude file through 30 requests (at, just before, between and beyond records, backward steps), resolves one (good or damaged) line or file, or asks one mass history at 8 epochs; distinct = different request histories, damages and files.",
  assumptions=["ggdatetime's parser is replaced by a shim", "records are in time order"],
  level_note="Quaternion components to 1e-9 plus the resolution of the epoch, corrections exactly; on the executions run.")


FRM = dict(repo=["src/itrs2gcrs.cpp", "src/iers/eop_interpolate.cpp"], inc=SRC, defs=["NEW_EOP"])
C("C23", thorough_x=10, drivers=[Driver("frames", flavours=["asan", "memcheck", "plain"], memcheck_div=20, **FRM)],
  technique="runtime monitoring: documented rotation product and its derivative (long double) as oracle over generated Earth-orientation tables, ASan+UBSan (stack use after scope) and memcheck, production optimisation as a third build",
  rule="Each case transforms random positions and states with one pair of rotations, angle and length of day, or evaluates the chain at 6 epochs of one table (midnights, leap-second days, edges, epochs outside); distinct = different (matrix kinds, angle, rate) cells and (table kind, day, 10 minutes) cells.",
  assumptions=["the external SOFA routines are stand-ins with the published signatures and units", "the epoch of a leap second itself is not covered"],
  level_note="Vectors to 1e-14 relative, rotation angle to 4e-10 rad (resolution of a double date), matrices to 2e-12; on the epochs evaluated.")


C("C25", thorough_x=6, drivers=[Driver("stations", repo=["src/ids/get_pdop_crd.cpp", "src/relativity/relativistic_clock_correction.cpp", "src/var/yaml_utils.cpp"], inc=SRC, flavours=["asan", "memcheck"], memcheck_div=20)],
  technique="runtime monitoring: generated SINEX contents against the generator's station table, closed-form potential (long double), generated configuration trees, ASan+UBSan and memcheck",
  rule="Each case extrapolates one request list (random order, complete, with absent sites, missing or mis-scaled estimates, unreadable), evaluates one clock term, or looks up every leaf and absent neighbours of one configuration; distinct = different request shapes, (latitude, radius, speed) cells and configuration leaves.",
  assumptions=["the external sinex and yaml-cpp libraries are stand-ins serving generated contents", "one solution per station"],
  level_note="Coordinates to 4e-9 m, clock terms to 2e-14 relative, every status exactly; on the executions run.")


C("C24", thorough_x=8, drivers=[Driver("varequ", flavours=["asan", "memcheck"], memcheck_div=12, defs=["NEW_EOP"], inc=SRC, repo=["src/variational_equations.cpp", "src/itrs2gcrs.cpp", "src/sunmoon.cpp", "src/iers/eop_interpolate.cpp", "src/planets/cspice_utils.cpp", "src/gravity/gravity_acceleration.cpp", "src/gravity/lagrange_poly.cpp", "src/gravity/point_mass_acceleration.cpp", "src/gravity/harmonic_coeffs.cpp", "src/astrodynamics/drag.cpp", "src/satellites/jason3_quaternions.cpp", "src/atmosphere/nrlmsise00_*.cpp", "src/atmosphere/nrlmsise_spline.cpp", "src/var/celestrak_swdata.cpp"])],
  technique="runtime monitoring: independently composed accelerations and their numerical derivatives as oracle over evaluation histories with generated Earth-orientation, attitude and space-weather files, ASan+UBSan and memcheck",
  rule="Each case builds one configuration (gravity degree/order, plates, attitude and flux files, epoch) and evaluates the right-hand side at 8 epochs (forward, repeated, small steps back) with random or identity transition matrices; distinct = different (UTC day, 10 minutes, altitude, plates, degree/order) cells.",
  assumptions=["external ephemeris, SOFA, interpolation and geodesy libraries are stand-ins", "the Jacobian leaves out the Sun's partials (1e-7 of it) and holds the projected area constant, as documented in the code"],
  level_note="Accelerations to 2e-13 of gravity plus 3e-6 of drag, Jacobian to 1e-9 plus 1e-4 of the drag partials; on the evaluations run.")


C("C26", thorough_x=4, drivers=[Driver("web", repo=["src/web/http_get.cpp"], inc=SRC, libs=["-lcurl", "-lpthread"], flavours=["asan"])],
  technique="runtime monitoring: scripted loopback server and write-size limits injecting faults, byte comparison of the delivered file, descriptor and heap monitors, ASan+UBSan",
  rule="Each case is one download through one server script (complete by length, chunks or close; error status, redirect, cut, reset, garbage, silence, refusal), one local fault (size limit anywhere, directory, missing parent, running program), or one address; distinct = different (script, existing file, force, size) cells.",
  assumptions=["libcurl itself is trusted", "a forced download gives up the previous content of the file it replaces"],
  level_note="Every byte and status exactly; on the exchanges run.")


C("C29", python=scripts.run_all,
  technique="runtime monitoring: the scripts run as they are on generated files and a scripted web, their output compared with the generator's records; CPU and output-size watch",
  rule="Each case runs one script on one generated input (gravity file in two encodings, chain of bulletins around a request, set of station logs, C header, space-weather answer, column files), whole, damaged or unreachable; distinct = different inputs.",
  assumptions=["the requests and matplotlib packages are stand-ins (not installed here)", "leading and trailing blanks of a line are not preserved by the converters"],
  level_note="Every word, number, day and record; on the inputs run.")


C("C30", thorough_x=12, drivers=[Driver("proto", repo=[], inc=["."], flavours=["asan", "memcheck"], memcheck_div=20)],
  technique="runtime monitoring: elements generated first and rebuilt from their state (long double), special functions of the standard library, orthonormality integrals, published delay formulas and an exact orbit as oracles, ASan+UBSan and memcheck",
  rule="Each case runs the four element conversions on one state, evaluates one Legendre function or integral, 20 delays or one orbit; distinct = different (e, i, omega, E), (degree, order, argument), site and orbit cells.",
  assumptions=["the separate bernese/beutler/tapley/schwarz sources return nothing; the printing versions of cartesian2keplerian.cc are observed"],
  level_note="Elements to the rounding of the state, delays to 4e-15, Legendre functions to 1e-13 (1+l); on the values run.")


def misc(groups):
    d = Driver("misc", repo=["src/atmosphere/exponential_atmospheric_model.cpp"], inc=["src", "var"])
    d.groups = groups
    return [d]


C("C21", thorough_x=20, drivers=misc(["exp_density", "exp_extreme"]),
  technique="runtime monitoring: published table and exponential law (long double) at, beside and between band boundaries, ASan+UBSan",
  rule="Each case evaluates 40 altitudes (band start, last value below the next band, integers, random, above 1000 km); distinct = different (band, twentieth of the band) cells.",
  level_note="Density to 1e-13 relative, decrease within the band and continuity to 3 % at every boundary; on the altitudes evaluated.")
C("C27", drivers=misc(["bitset", "sp3flag", "compound"]),
  technique="runtime monitoring: operation histories against a shadow set, ASan+UBSan",
  rule="Each case is one history of set/clear/reset/build/compare operations on bit sets over six underlying types, on a satellite-event flag, or on a packed measurement, every member tested after each step; distinct = different histories.",
  level_note="Every member after every operation, exactly; on the histories run.")
C("C28", drivers=misc(["interpolate"]),
  technique="runtime monitoring: polynomial and Lagrange oracles (long double) over exactly sized tables, ASan+UBSan",
  rule="Each case builds one table (1-40 nodes, even or uneven, polynomial or random values) and looks up 12 arguments at, beside, between and outside the nodes with every interpolator; distinct = different (length, degree, interval, at node) tuples.",
  level_note="Nodes to 1e-13, values to conditioning-scaled rounding, every status exactly; on the look-ups run.")
