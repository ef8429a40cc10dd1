#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one JSON object per line) from the table below."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=" ".join(statement.split()),
        quantifier=dict(over=list(over), text=" ".join(text.split())), why_tests_cant=" ".join(why.split()),
        anchors=dict(files=list(files), state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=list(observe), hook_needed=hook)))

SG = ["src/integrators/sgode_de.cpp", "src/integrators/sgode_step.cpp", "src/integrators/sgode_intrp.cpp", "src/integrators/sgode.hpp",
      "var/ode_solvers/sgode_de.cpp", "var/ode_solvers/sgode_step.cpp", "var/ode_solvers/sgode_intrp.cpp", "var/ode_solvers/sgode.hpp"]

prop("C01", "Multistep ODE driver: every call ends in exactly one documented outcome",
 """Every call to the multistep (Shampine-Gordon) ODE integrator ends in exactly one documented outcome: success with flag 2 and the
 time equal to the requested output point; or an error return with flag 3 (tolerances too small for the machine precision, returned enlarged; or the step size has become too small to be
 significant), 4 (more than 500
 steps in one call) or 5 (same, and the problem looks stiff), with time and solution at the point actually reached, from which calling
 again continues.
 Invalid requests (no equations, zero-length interval, a negative tolerance, both tolerances zero, a start with a purely relative tolerance and a
 component that is zero, flag zero or out of range, or a start
 time different from the one last returned without asking for a restart) are refused with flag 6 and an error return, without evaluating
 the derivative function and without touching time, solution or tolerances.""",
 ["inputs", "histories"],
 """All call histories (start, continue, reverse, restart, retry after an error flag, invalid calls interleaved), all
 intervals, directions, tolerances and right-hand sides; in both copies of the integrator.""",
 """The one stable test runs a single problem, forwards, with one tolerance pair and only the success outcome.""",
 SG, [("flag protocol of the driver: validity test, step budget, stiffness count, crash exit", "src/integrators/sgode_de.cpp: SGOde::de")],
 [("iflag", "call protocol flag", "SGOde::iflag"), ("told", "time last returned", "SGOde::told"), ("isnold", "sign of flag on previous call", "SGOde::isnold")],
 ["return value, flag(), t, yout, relerr/abserr, calls of the derivative function"])

prop("C02", "Multistep ODE driver: direction, stop-at-output and continuation are honoured",
 """In the stop-at-output mode (negative flag) the derivative function is never evaluated beyond the requested output point, in the normal
 mode never beyond ten times the interval, and in no mode on the wrong side of the starting point of the call's integration.
 Splitting an interval into any sequence of output points, changing direction, switching between the two modes or restarting at a returned point gives a
 solution that stays within a modest multiple of the tolerance of the exact one at every successful output.""",
 ["inputs", "histories"],
 """All sequences of output points (dense, sparse, repeated reversals), mode switches, restarts; tolerances from loose to near machine precision (where
 propagated round-off is being tracked).""",
 """The stable test only marches forward over widely spaced points in normal mode and asserts no value at all.""",
 SG, [("tend limit, restart test on direction/mode change, interpolation past output point", "SGOde::de"), ("interpolation", "SGOde::intrp")],
 [("delsgn", "direction of integration", "SGOde::delsgn"), ("x", "internal time reached", "SGOde::x")],
 ["abscissae passed to the derivative function; yout at success"])

prop("C03", "Multistep ODE step control: reject, retry, grow within the published limits",
 """Seen through the derivative evaluations, each step of the multistep integrator evaluates the predicted point once, and either accepts (evaluates that
 same point again) or rejects and retries from the same start with the step exactly halved on the first three failures and at most halved afterwards; a retry
 never changes direction.
 The first step of a start is the whole interval, or a quarter of the step the tolerance admits at the starting point. After an accepted step the next step is exactly doubled, kept, or reduced to between half and nine tenths (unless limited by the output point), the doubling
 continuing at least until the first failure or order drop, and on smooth problems the whole run stays within a small work budget (order really rises).""",
 ["inputs", "histories"],
 """All right-hand sides (smooth, discontinuous, rapidly varying), tolerances, intervals.""",
 """Step selection is invisible in the printed output of the existing example, which asserts nothing about it and meets no repeated failure.""",
 SG, [("blocks 1-4 of the step routine: failure handling, order choice, step choice", "SGOde::step")],
 [("h", "step", "SGOde::h"), ("ifail", "consecutive failures", "SGOde::step")],
 ["sequence of abscissae passed to the derivative function"])

RK = ["var/ode_solvers/rkf45.hpp", "var/ode_solvers/rkf45_rkfs.cpp", "var/ode_solvers/rkf45_fehl.cpp"]
prop("C04", "Runge-Kutta-Fehlberg driver: outcomes, step limits and retry protocol",
 """Every call to the Runge-Kutta-Fehlberg integrator ends with flag 2 and time equal to the output point and a solution within a modest multiple of the
 tolerance, or with a documented error flag (3 relative tolerance raised to its floor, 4 too many evaluations, 5 vanishing error tolerance, 6 tolerance unattainable, 8 invalid input) leaving time at the
 point reached; after flag 3 or 4 calling again continues from there, and invalid input never evaluates the derivative (nor does any
 call after one of the outcomes 5, 6 and 8, which the class gives no means to clear). A step that overflows counts as failed.
 Each trial step uses the six Fehlberg abscissae of one step, a failed trial is retried from the same point with the step shrunk by a factor between 0.1 and 0.9, a successful step
 makes the next one between nine tenths and five times as long (not longer at all right after a failure) unless it is cut to reach the output point in one or two
 equal steps, the first step of an integration is the whole interval or the fifth root of tolerance over derivative, and no evaluation lies beyond the output point.""",
 ["inputs", "histories"],
 """All right-hand sides (vector systems of any size), intervals in both directions, tolerances, sequences of calls.""",
 """The example builds the solver but its loop over output points runs zero times: the solver is never called by any test.""",
 RK, [("rkfs state machine and step-size control", "RKF45::rkfs"), ("Fehlberg formulas", "RKF45::fehl")],
 [("iflag/jflag/kflag", "protocol flags", "RKF45"), ("nfe", "evaluations", "RKF45::nfe")],
 ["solve(): t, y, flag(), abscissae passed to the derivative function"])

IC = ["src/gravity/icgemio_rdhead.cpp", "src/icgemio.hpp", "var/icgem/src/icgemio_rdhead.cpp", "var/icgem/src/icgemio.hpp"]
prop("C05", "Gravity-model header: accepted exactly when well formed, values by keyword",
 """Parsing the header of an ICGEM gravity model file succeeds exactly when an end-of-header line is reached and every keyword value read before it is
 of the right form (non-zero numeric model constants, a positive maximum degree, non-empty text values) and the constants and the degree are all given; on success each header value is that of its keyword line whatever the order of the lines, unrelated lines are
 ignored, normalisation defaults to fully normalised when the keyword is absent, and the data section begins right after the end-of-header line.
 A missing file, a missing end-of-header line or a malformed value is reported as an error.""",
 ["inputs"],
 """All header texts: any order, subset and repetition of keyword lines mixed with free text, spacing, malformed values, truncation.""",
 """No stable test reads a header (the test program needs a model file argument and is not among the stable tests).""",
 IC, [("keyword scan", "Icgem::parse_header")], [("data_section_pos", "offset of the first data record", "Icgem")],
 ["return code of parse_header and the public accessors"])

prop("C06", "Gravity-model coefficients: exactly the requested window, complete or refused",
 """Reading coefficients up to degree n and order m stores, for every degree <= n and order <= min(degree, m), exactly the C and S values of that record in the file, independent of the order of the records and of records
 outside the window, leaves every coefficient outside the window untouched, and takes over the model's constants and normalisation.
 It succeeds only if the file supplies the whole window (except that degree-1 terms may be absent, which then read as zero); a missing or repeated-in-place-of-missing record, a malformed
 record, or a request outside the model's or the container's degree is reported as an error.""",
 ["inputs"],
 """All files (any record order, gaps, duplicates, foreign keywords, comments, truncation, last line without newline) and all requested windows (n, m).""",
 """No stable test reads coefficients.""",
 ["src/gravity/icgemio_rddata.cpp", "src/gravity/parse_coefficients.cpp", "var/icgem/src/icgemio_rddata.cpp"],
 [("record loop and counting", "Icgem::parse_data"), ("driver", "dso::parse_gravity_model")],
 [("coeffs_read", "number of accepted records", "Icgem::parse_data")], ["return codes; C(n,m), S(n,m) afterwards"])

prop("C07", "Harmonic-coefficient container: independent cells, resize, move, denormalise",
 """In the container of spherical-harmonic coefficients every (degree, order) C and S cell within the current degree is an independent memory cell: writing one changes no other.
 Moving transfers degree, constants, normalisation state and all cells and leaves the source safely destructible; every buffer is released exactly once over any history of
 construction, resizing, moving and destruction, and after resizing all cells up to the new degree are usable.
 Denormalising multiplies each cell of degree n and order m up to the requested order by exactly the normalisation factor of (n, m), once (repeating it on a container that records its normalisation changes nothing); an order larger than the degree is refused with nothing changed.""",
 ["inputs", "histories"],
 """All degrees, all histories of construct / write / resize up and down / move-construct / move-assign (also to itself) / denormalise / destroy.""",
 """No stable test touches the container.""",
 ["src/harmonic_coeffs.hpp", "src/gravity/harmonic_coeffs.cpp", "var/icgem/src/harmonic_coeffs.hpp", "var/icgem/src/harmonic_coeffs.cpp"],
 [("packed C/S ragged array and index maps", "HarmonicCoeffs::C/S"), ("ownership", "allocate/deallocate/resize/move")],
 [("m_data", "ragged array", "HarmonicCoeffs"), ("m_degree", "degree", "HarmonicCoeffs")], ["C(), S(), degree(), normalized(), allocation balance"])

prop("C08", "Compact 2-d matrices: distinct in-shape cells, value copies, single ownership",
 """For each storage order (row-wise, column-wise, lower triangular) a compact matrix maps every (row, column) inside its shape to its own cell inside the allocated storage, and row / column
 pointers address exactly the cells of that row / column; above the diagonal a triangular matrix shows the mirrored cell.
 Copies (constructed or assigned) hold equal values and share nothing with the original, moves transfer the values and leave the source safely reusable or destructible, self-assignment changes nothing, and every buffer is released exactly once.""",
 ["inputs", "histories"],
 """All shapes and all histories of construct / write / fill / copy / move / self-assign / destroy.""",
 """No stable test touches the class.""",
 ["src/cmat2d.hpp", "var/icgem/src/compact2dmat.hpp"],
 [("offset maps per storage", "StorageImplementation<...>"), ("ownership", "Mat2D special members")],
 [("data", "flat storage", "Mat2D")], ["operator(), row/column pointers, copies"])

prop("C09", "Flag sets behave as sets of independent flags",
 """Every flag container (generic enum set, orbit-file flags, packed per-measurement flags) behaves as a set: setting, clearing or testing one flag, or writing one measurement's packed flag, affects exactly that member and no other,
 clearing all leaves nothing set, a container is clean exactly when nothing is set, and two containers are equal exactly when they hold the same flags.
 Assigning a joined collection of flags makes the container equal exactly that collection.""",
 ["histories"],
 """All histories of set / clear / test / reset / join over all flags and (for packed flags) all measurement slots.""",
 """The existing programs set two or three particular flags in one order.""",
 ["src/enum_bitset.hpp", "src/doris_rinex.hpp", "var/flags.cc", "var/compound_measurement.cc"],
 [("bit masks", "EnumBitset, Sp3Flag, Flag")], [("bits_", "flag word", "Sp3Flag / EnumBitset")], ["check/is_set/is_clean/operator=="])

prop("C10", "Table interpolators: right bracket, exact at nodes, bounded outside",
 """The nearest-neighbour, linear and quadratic table interpolators return the tabulated value at every tabulated abscissa including the first and the last, and between abscissae a value computed from the
 bracketing points only (the nearer of the two, the upper one when equally near; the straight line; the parabola through the bracket and its nearer outer neighbour, the upper one when equally near), with status 0;
 below the table the first value with status 1, above it the last value with status 2.
 The answer depends only on the table and the query, never on previous queries.""",
 ["inputs", "histories"],
 """All strictly increasing tables of two or more (quadratic: three or more) points and all queries in any order.""",
 """The demonstration program prints a dense sample for one table and asserts nothing.""",
 ["var/intrp.cc"], [("bracketing search", "BaseInterpolator"), ("formulas", "operator()/interpolate")], [], ["returned value and status"])

prop("C11", "File download: reported outcome matches what is on disk",
 """A download reports success (0) only if the complete body was received from a successful (2xx) response and written to the requested local file, which then holds exactly that body; on any failure it reports an error (positive) and leaves no partial file at the target:
 nothing, or what was there before.
 If the target already exists and overwriting is not forced, it is left untouched, no request is made, and that fact is reported distinctly (negative). A target that cannot be opened for writing is left as it was; no other file is touched.""",
 ["fault_sequences", "inputs"],
 """All combinations of target state (absent, existing, not writable, a directory, in a missing directory), force flag, and outcomes (success, HTTP error, redirection, truncated body, connection failure, disk full while writing or at the close), in any sequence.""",
 """No stable test calls the downloader (no network).""",
 ["src/web/http_get.cpp", "src/cweb.hpp"], [("open/perform/close/remove", "dso::http_get")], [], ["return code, file system, requests seen by the server"])

RX = ["src/rinex/read_rnx_header.cpp", "src/rinex/doris_rinex.cpp", "src/doris_rinex.hpp"]
prop("C12", "DORIS RINEX header: all or nothing, every item from its own line",
 """Opening a DORIS observation file succeeds only if the header is complete and consistent: it starts with the version line of a DORIS observation file, ends with an end-of-header line, announces as many beacons and reference beacons as it lists, fewer reference beacons than beacons and each of them listed, and every numeric
 field is well formed; otherwise opening fails.
 On success each announced item (observation types in file order, their scale factors, receiver clock, 2 GHz / 400 MHz date offset, beacon identities with shift factors, dates) is the value on its own line,
 independent of the order of header lines where the format allows any order, and a scale factor applies to exactly the observation types it names.""",
 ["inputs"],
 """All headers: numbers and kinds of observation types, scale-factor lines, beacon lists, line orders, missing / duplicated / malformed lines, truncation.""",
 """No stable test opens a RINEX file (the library part is not even built in the baseline).""",
 RX, [("label-driven header state machine", "DorisObsRinex::read_header"), ("count checks", "end of read_header")], [], ["constructor outcome and accessors"])

prop("C13", "DORIS RINEX data: blocks in order, each beacon's values in their own column",
 """Iterating over a DORIS observation file yields every data block exactly once, in file order, with its epoch, flag, receiver clock offset (or the explicit missing marker) and, for each announced beacon, the values of all observation types in file
 column order, divided by their scale factor, with blank or zero fields reported as missing and flags attached to their own value, and then reports end of file. The epochs corrected for the receiver clock are the block's epoch plus its own clock offset (nothing if that is missing, or if the file says it is already applied), and for the second frequency plus the date offset.
 No value depends on a previous line, block or beacon; a malformed or truncated block is reported as an error and never as data.""",
 ["inputs", "histories"],
 """All files: numbers of observation types (one or several lines per beacon), beacons per epoch, missing values, short lines, epoch flags, truncation at any point.""",
 """No stable test opens a RINEX file.""",
 RX + ["src/rinex/rnx_datablock_iterator.cpp"], [("epoch and observation line parsers", "resolve_data_epoch, read_data_block"), ("iterator", "RinexDataBlockIterator::next")], [],
 ["iterator return codes, header and value vectors"])

prop("C14", "DORIS beacon tables: lookups are exact and find the listed beacon",
 """Looking a beacon up by its internal number or by its four-character identifier returns exactly the beacon listed under it in that file and reports failure (never another beacon) when there is none; the two directions are inverse to each other.
 The nominal transmit frequencies are the published linear function of the beacon's own shift factor, and the beacon generation is determined by its identifier's last letter alone, an unknown letter being refused.""",
 ["inputs"],
 """All beacon lists and all queries, present or absent, including identifiers differing in one character.""",
 """No stable test uses the beacon tables.""",
 ["src/doris_rinex.hpp", "src/doris_system_info.hpp", "src/doris/doris_system_info.cpp", "src/rinex/doris_rinex.cpp"], [("linear searches", "beacon lookup functions")], [], ["lookup results"])

prop("C15", "Earth-orientation table: resize, copy and move keep the values they hold",
 """A table of Earth-orientation parameters holds, for every epoch index, the epoch and the seven parameters last stored there; copying gives an equal, independent table, moving transfers all values and the capacity, and every buffer is released exactly once.
 Resizing to a size within the allocated capacity keeps stored values, and any size may follow any other.""",
 ["histories"],
 """All histories of construct / write / resize / copy / move / self-assign / destroy over several tables, all sizes.""",
 """No stable test uses the table.""",
 ["src/eop.hpp"], [("one flat allocation with seven sub-arrays", "EopLookUpTable")], [("sz_, capacity", "used and allocated length", "EopLookUpTable")], ["accessors"])

prop("C16", "Earth-orientation files: exactly the days asked for, or an error",
 """Parsing an Earth-orientation (C04) file for the half-open day interval [start, end) succeeds exactly when the file lists every day of the interval, in chronological order and one line per day, and then the table holds exactly those days in order, one entry each, with each parameter taken from its own column; otherwise an error is returned.
 Comment and header lines never count as data, and days outside the interval never enter the table.""",
 ["inputs"],
 """All files (range of days listed, gaps, comments, malformed or truncated lines) and all requested intervals, including empty ones and intervals extending outside the file.""",
 """No stable test parses such a file.""",
 ["src/iers/parse_c04.cpp", "src/eop.hpp"], [("window scan", "parse_iers_C04")], [], ["return code and table contents"])

prop("C17", "Satellite attitude: the bracketing pair of records answers every query",
 """For any non-decreasing sequence of query times from the first record up to (not including) the last, the attitude returned is interpolated between the two consecutive file records that bracket the query time (and equals a record's attitude at that record's own time), no matter how far apart the queries are.
 A query before the first record or after the last one is reported as an error; an earlier time than one already asked for, or one that needs an unreadable line to be crossed, is refused or answered correctly, never answered from wrong or stale records. A file without two readable records to start from cannot be opened.""",
 ["inputs", "histories"],
 """All files (number and spacing of records, comments, duplicates between consecutive lines) and all query sequences (dense, sparse, skipping many records, outside).""",
 """No stable test uses the attitude reader.""",
 ["src/satellites/jason3_quaternions.cpp", "src/satellites/jason3_quaternions.hpp"], [("sliding window of records", "JasonQuaternionHunter::set_at, find_interval")], [("bodyq", "window", "JasonQuaternionHunter")], ["set_at / get_at return code and quaternion"])

prop("C18", "Satellite mass and centre of gravity: latest record not after the epoch",
 """The mass and centre-of-gravity corrections returned for an epoch are those of the latest record of the satellite's history file whose date-time is not after that epoch, compared as full date-times.
 Comment lines are ignored, before the first record the corrections are zero (mass and centre of gravity are the nominal ones), and a file that cannot be opened or a record that cannot be read on the way to that epoch gives an error.""",
 ["inputs"],
 """All history files (comments anywhere, any spacing of records, several records on one day) and all epochs, including exactly at, one second before and after a record.""",
 """No stable test reads such a file.""",
 ["src/satellites/satellite_corrections.cpp"], [("forward scan keeping the last passed record", "get_satellite_corrections")], [], ["returned corrections and status"])

SW = ["src/var/celestrak_swdata.cpp", "src/var/celestrak.hpp"]
prop("C19", "Space-weather window: N consecutive days ending at the day asked for",
 """Reading space-weather data for a day yields exactly the requested number of days before it, the day itself and the days after it, in date order, each with the values of its own line, or reports an error; it never mixes lines of other days in.
 Advancing day by day gives the same window as reading each day afresh, also across the end of the file and after a failed read.""",
 ["inputs", "histories"],
 """All files (first and last day, missing days, malformed lines, missing final newline) and all sequences of jumps and one-day advances.""",
 """No stable test reads such a file.""",
 SW, [("file scan with remembered file position", "parse_csv_for_date, get_next")], [("fpos", "remembered offset", "caller")], ["return code and window contents"])

prop("C20", "Atmosphere feed: flux and geomagnetic inputs of the right day and 3-hour slot",
 """For any sequence of update times the atmosphere-model inputs are: the 81-day mean flux and daily index of the current day, the daily flux of the previous day, and the seven geomagnetic values defined by the model (daily; current 3-hour slot; 3, 6 and 9 hours
 before; mean of the eight slots 12 to 33 hours before; mean of the eight slots 36 to 57 hours before the current time), taken from the calendar days those hours fall on.
 The values depend only on the date, time and file, not on the sequence of earlier updates.""",
 ["inputs", "histories"],
 """All times of day (all eight slots), all sequences of updates: same slot, next slot, next day, skips and jumps back.""",
 """No stable test uses the feed.""",
 ["src/atmosphere/nrlmsise00_get_flux_data.cpp", "src/atmosphere/nrlmsise00.hpp"], [("slot walk-back over a 4-day window", "Nrlmsise00DataFeed::init/update")], [("mjd_, chi", "day and slot loaded", "Nrlmsise00DataFeed")], ["InParams flux fields"])

prop("C21", "Beacon list for an epoch: exactly the beacons in service then",
 """Loading the beacon validity table for an epoch yields exactly those entries whose service interval [from, to) contains the epoch, in file order and with their own fields, ignoring the heading line; malformed input (unreadable fields, lines cut short or too long) is reported as an error.""",
 ["inputs"],
 """All tables (overlapping, adjacent, open or empty intervals) and all epochs, including exactly at the interval ends.""",
 """No stable test reads such a table.""",
 ["src/beacon_tbl/beacon_tbl.cpp", "src/beacon_tbl.hpp"], [("interval filter", "beacon table loader")], [], ["returned list"])

prop("C22", "Orbit filter layout: every estimated parameter has its own slot",
 """In the orbit-determination filter each estimated quantity (satellite state, dynamic parameters, and per beacon its tropospheric and frequency-offset terms) occupies its own index of the state vector: no two coincide and all lie inside the vector, for either frequency model.
 Setting an a-priori value or sigma for one quantity, or for all quantities of a kind, sets exactly the entries of that quantity and of no other, and reading a quantity returns its own entry (for the linear frequency model: offset plus drift times the time since the reference epoch).
 A time update takes over the given epoch and state and propagates the covariance as phi P phi' (plus process noise where given); a measurement update is the Kalman update of the whole state and covariance.""",
 ["configurations", "histories"],
 """All numbers of beacons and dynamic parameters, both frequency models, all sequences of setters and updates.""",
 """No stable test uses the filter.""",
 ["src/filters/filters.hpp", "src/filters/ekf.hpp"], [("index maps", "EkfFilter<...>")], [("estimates, P", "state and covariance", "ExtendedKalmanFilter")], ["state vector and covariance diagonal"])

prop("C23", "Polynomial models: value semantics and evaluation about their own origin",
 """A polynomial model evaluates to the sum of its own coefficients times powers of the distance from its own reference point; copies are equal and independent, moves transfer everything, and every buffer is released exactly once.""",
 ["inputs", "histories"],
 """All orders (including zero), all histories of construct / set / resize / copy / move / self-assign / destroy.""",
 """No stable test uses the class.""",
 ["src/filters/models.hpp"], [("coefficient buffer ownership", "PolynomialModel")], [], ["value(), coefficients"])

prop("C24", "Doppler counts pair consecutive observations of the same beacon",
 """Each Doppler count listed for a file is formed from two successive observations of one beacon in that file, both carrying both phases: the beacon's code, the later epoch, the changes of its L1 and L2 phases (from the columns of those types, wherever the header lists them) and the time elapsed between the two.
 It is never formed between different beacons, across an observation of the beacon that lacks a phase, or from a missing value; every such pair produces exactly one count, in file order, whatever has been read of the file before.
 A file whose header lists no L1 or no L2, or whose data cannot be read, is an error.""",
 ["histories"],
 """All interleavings of beacons over epochs, all placements of missing phases and orders of the observation types, any reading position.""",
 """No stable test forms Doppler counts.""",
 ["src/doris/extract_doppler_count.cpp"], [("per-beacon memory of the last observation", "extract_doppler_count")], [], ["output records"])

prop("C25", "Receiver frequency-offset series: every reading used once, in its own block",
 """Fitting the receiver frequency-offset series in blocks of N readings uses, of every file given, every usable reading exactly once: those present (not missing, from an epoch with observations) whose receiver-clock corrected epoch lies in the requested interval [start, end).
 Each N successive usable readings of a file give one point, their mean at the middle of the block's own first and last epoch (on the corrected or on the proper time scale, as requested), a last, incomplete block the same with the readings it has;
 the model returned is the least-squares polynomial of its order through these points, about the first file's reference date.
 A file that cannot be read or lists no frequency offsets, and an interval without usable readings, are errors.""",
 ["inputs"],
 """All series lengths, block sizes, sets of files, intervals, clock offsets and placements of unusable readings.""",
 """No stable test runs the fit.""",
 ["src/rinex/fit_rfo.cpp"], [("block averaging", "fit_relative_frequency_offset")], [], ["return code; values of the fitted model"])

prop("C26", "Station coordinates: each requested site gets its own extrapolated position",
 """Extrapolating station coordinates from a solution file returns, for each requested site found in it, that site's own reference position plus its own velocity times the time elapsed since that site's reference epoch (in years of 365.25 days), in request order.
 A site that is not in the file, or whose position or velocity estimates are missing or in other units than m and m/y, is an error unless missing sites were explicitly allowed, in which case the others are still returned; an unreadable file is always an error.""",
 ["inputs"],
 """All requested site lists (order, duplicates, missing) and all solution contents.""",
 """No stable test reads a solution file.""",
 ["src/ids/get_pdop_crd.cpp"], [("estimate selection and pairing", "extrapolate_sinex_coordinates")], [], ["returned coordinates"])

prop("C27", "Antenna phase correction: right table cell pair, bounds always reported",
 """The phase-centre correction for a ground antenna is interpolated between the two tabulated zenith angles bracketing the query for that antenna type, equals the tabulated value at a tabulated angle up to and including the last, and a query outside the table is flagged as out of bounds for every antenna type.
 The ionosphere-free phase centre of a beacon is the combination of the eccentricities of its own antenna type.""",
 ["inputs"],
 """All antenna types and zenith angles in, at the ends of and outside the table.""",
 """No stable test uses the tables.""",
 ["src/antenna_pcv.hpp", "var/antenna/phselaw.cc"], [("table lookup", "AntennaOffset<...>::pcv")], [], ["value and out-of-bounds flag"])

prop("C28", "Kernel loading is idempotent and per file",
 """Asking for an ephemeris, leap-second or constants kernel loads it if and only if that same file is not already loaded, for any sequence of requests and any set of kernels loaded before, so that no kernel is loaded twice and none is skipped because another one resembles it (whether a constants kernel is binary or text).
 The gravitational constants of Sun and Moon are those of the loaded constants kernel, and Sun and Moon positions taken from the ephemeris are those of that body, seen from the Earth's centre, at the epoch given.""",
 ["histories"],
 """All sequences of load requests over kernels of several kinds with names that are prefixes of each other, interleaved with external loads and unloads.""",
 """No stable test loads kernels.""",
 ["src/planets/cspice_utils.cpp", "src/planetpos.hpp"], [("scan of loaded kernels", "load_if_unloaded_*")], [], ["calls made to the kernel pool"])

prop("C29", "Layered atmosphere and switches: one layer per altitude, switches independent",
 """The layered density model uses, for every positive altitude, exactly the layer whose altitude range contains it (the last one above the top), so density at a layer's base is that layer's tabulated density and decreases within a layer.
 Setting a model switch changes the main and cross value of that switch alone.""",
 ["inputs", "histories"],
 """All altitudes including exact layer limits; all sequences of switch settings.""",
 """No stable test evaluates the model.""",
 ["src/atmosphere/exponential_atmospheric_model.cpp", "src/atmosphere/nrlmsise00.hpp"], [("layer search", "exponential::density"), ("switch setters", "Switches")], [], ["density(), switch arrays"])

prop("C30", "Numerical fidelity of the force and geometry models",
 """Planetary positions, relativistic accelerations, Earth-rotation series and atmospheric model values agree with their published formulas and coefficients to working precision over their whole domain (beyond the relations between results stated by other properties).""",
 ["inputs"],
 """All states, epochs and model parameters.""",
 """The few numeric tests compare single points by printing.""",
 ["src/gravity/gravity_acceleration.cpp", "src/astrodynamics", "src/planets", "src/relativity", "src/atmosphere"], [("formulas", "the respective functions")], [], ["returned values"])

prop("C31", "Earth-orientation values at an epoch: own column, each correction once",
 """The Earth-orientation values returned for an epoch are, parameter by parameter, the interpolation of that parameter's own column at that epoch plus the zonal-tide, ocean-tide and libration corrections that concern it, for that epoch, each added exactly once;
 an epoch without enough entries around it is reported as an error, never answered. Regularising a table takes the zonal-tide effect of each entry's own epoch out of that entry's day length, universal time and rotation rate and changes nothing else;
 interpolating never changes the table.""",
 ["inputs", "histories"],
 """All tables, epochs (on, between and outside entries), interpolation orders, any number of regularisations before.""",
 """No stable test interpolates Earth-orientation values.""",
 ["src/iers/eop_interpolate.cpp", "src/eop.hpp"], [("interpolation and corrections", "EopLookUpTable::interpolate, interpolate_lagrange, regularize")], [], ["returned record, return code and table columns"])

prop("C32", "Atmosphere model results depend on the inputs in use and nothing else",
 """NRLMSISE-00 densities and temperatures are a function of the call's inputs: the same inputs give the same result through any instance, new or used, after any history of calls (other altitudes, species, units, switch settings), and inputs an effect switched off would need (or the geomagnetic index not asked for) do not change it.
 Results in metres are those in centimetres in other units; one species alone is what it is among all; total density is the sum over the species, anomalous oxygen only in the effective total; what is not computed is zero; the sample results published with the model are reproduced.""",
 ["histories", "inputs"],
 """All histories of calls over several instances; all altitudes from the ground up, species selections and switch settings.""",
 """No stable test evaluates the model.""",
 ["src/atmosphere/nrlmsise00_gtd7.cpp", "src/atmosphere/nrlmsise00_gtd7d.cpp", "src/atmosphere/nrlmsise00_gts7.cpp", "src/atmosphere/nrlmsise00_globe7.cpp", "src/atmosphere/nrlmsise00_glob7s.cpp", "src/atmosphere/nrlmsise00.hpp"], [("public entry points", "Nrlmsise00::gtd7, gtd7d")], [], ["densities, temperatures, return code"])

prop("C33", "Orbital elements and states are two accounts of one orbit",
 """For every elliptic orbit, the state computed from orbital elements and the elements computed from a state are inverse to each other by every conversion route offered, at every point of the orbit including apsides and nodes (no NaN), the angles coming back in their own ranges and never interchanged;
 advancing an orbit in time changes only its anomaly, two steps equal one of their sum, and back and forth is nothing; Kepler's equation is solved by the anomaly returned; the state partials and the state transition matrix are the derivatives of the propagated state (the matrix at zero elapsed time is the identity, over two steps the product).
 Right ascension and declination of a position are those of its direction, in range, for every position.""",
 ["inputs", "histories"],
 """All elliptic orbits, points on them (apsides, nodes, all quadrants), times of either sign, and sequences of conversions and propagations.""",
 """No stable test converts a state.""",
 ["src/astrodynamics/kepler.cpp", "src/astrodynamics/perifocal.cpp", "src/astrodynamics/pos2ra.cpp", "src/astrodynamics/propagate_state.cpp", "src/astrodynamics/state2kepler.cpp", "src/astrodynamics/state_partials.cpp"], [("conversions and propagation", "elements2state, state2elements, state2kepler*, propagate_*, kepler")], [], ["elements, states, matrices"])

prop("C34", "Celestial and terrestrial frames: exact inverses, arguments in their places",
 """Transforming a position or state to the other frame and back returns it; a position fixed to the rotating Earth has, in the celestial frame, the velocity of the rotation at the rate given (day length included) about the Earth's instantaneous axis and a state keeps its length and its angles; the transformation is the product of its polar-motion, rotation and precession parts in that order, each evaluated with its own arguments at the epoch given, and returned objects own their values.
 The Earth-orientation quantities given reach the part that needs them, in that part's units.""",
 ["inputs", "histories"],
 """All rotations, states, Earth-orientation values and epochs; sequences of transformations in either direction.""",
 """No stable test transforms a state.""",
 ["src/itrs2gcrs.cpp", "src/orbit_integration.hpp"], [("rotation matrices and state transformation", "gcrs2itrs, rcel2ter, rter2cel, ycel2ter, yter2cel")], [], ["returned vectors and matrices"])

prop("C35", "Shadow functions: lit in front, dark behind, partial between the cones",
 """A satellite on the Sun's side of the Earth, or outside the penumbra, is fully lit; inside the umbra it is fully dark; the cylindrical functions are dark exactly behind the Earth within its radius; the conical functions are partial exactly between the two cones and the lit fraction lies in [0,1] and never decreases as the satellite moves away from the shadow axis at the same depth.
 The answer depends on the geometry alone (not on orientation), is defined on the axis and at the cones' edges, and a flattened Earth's shadow is that of the flattened body.""",
 ["inputs"],
 """All positions of Sun and satellite, all orientations, on the shadow axis, the cones, the terminator and in front of the Earth.""",
 """No stable test evaluates a shadow function.""",
 ["src/astrodynamics/occultation.cpp"], [("shadow functions", "utest::montebruck_shadow, vallado_shadow, bernese_shadow1, conical_shadow")], [], ["shadow class / fraction"])

prop("C36", "Gravity is the gradient of the potential of the window asked for",
 """The gravity acceleration at a position is the gradient of the potential of the spherical-harmonic terms within the degree and order window asked for, every one of them and no others, in any storage offered, and the partials are its derivative: a full symmetric matrix without trace; at any position, axis and equator included, and whether assertions are compiled in or not.
 The two-step way (polynomials filled once, used for windows they cover) equals the one-call way; a point mass equals degree zero; no call reads or writes outside the polynomials it was given, and reuse of their storage leaves nothing behind.""",
 ["inputs", "histories"],
 """All coefficient sets, positions, windows and histories of filling and using polynomial workspaces.""",
 """No stable test evaluates gravity.""",
 ["src/gravity/gravity_acceleration.cpp", "src/gravity/lagrange_poly.cpp", "src/gravity/point_mass_acceleration.cpp", "src/egravity.hpp", "var/icgem/src/gravity_acceleration.cpp", "var/icgem/src/lagrange_poly.cpp"], [("harmonic acceleration and partials", "lagrange_polynomials, grav_potential_accel, gravity_acceleration, point_mass_accel")], [], ["acceleration, partials, return code"])

prop("C37", "Drag and solar radiation: along the wind and the light, with true partials",
 """Air drag opposes the velocity through an atmosphere that turns with the Earth, whichever form is used (position and velocity in the frame of date or rotated into it), grows with the square of that speed and linearly with density, cross section, coefficient and inverse mass; its partials by position, velocity and coefficient are its derivatives, the density gradient included.
 Solar radiation pushes away from the Sun with the inverse square of the distance and its partials are its derivatives, for a zero coefficient too; the objects returned own their values.""",
 ["inputs"],
 """All satellite states, Sun positions, frame rotations, coefficients (zero and negative ones included) and density gradients.""",
 """No stable test evaluates surface forces.""",
 ["src/astrodynamics/drag.cpp", "src/astrodynamics/solar_radiation.cpp", "src/astrodynamics.hpp"], [("surface forces", "drag_accel, solar_radiation_acceleration")], [], ["accelerations and partials"])

prop("C38", "Variational equations: every model at its time, place and frame, each once",
 """The right-hand side of the equations of motion is the velocity and the sum of the gravity of the configured window, third-body and drag accelerations, each exactly once in the celestial frame; each model is asked at the epoch the time argument stands for (in its own time scale) and at the position in its own frame, and drag with the satellite's own mass, coefficient and the cross section its attitude turns to the air.
 The derivative of the transition matrix and sensitivity is the product with the sum of the models' partials, in the celestial frame; without attitude drag and all its partials are nothing. Assertions compiled in or not, and earlier evaluations, make no difference.""",
 ["inputs", "histories"],
 """All states, epochs, Earth orientations, attitudes, macromodels, model results and sequences of evaluations.""",
 """No stable test evaluates the equations of motion.""",
 ["src/variational_equations.cpp", "src/orbit_integration.hpp", "src/atmosphere/nrlmsise00.hpp"], [("right-hand side", "VariationalEquations, IntegrationParameters")], [], ["derivative vector; arguments the models receive"])

prop("C39", "Frequency-offset filter: least squares of everything read so far",
 """The sequential estimate of a receiver's frequency offset and drift reports, after every reading of the files in the order given, the weighted least-squares offset (at the first reading's epoch) and daily drift of the a-priori values (the first reading; a drift of 3) and all readings so far, each with its own epoch and weight, together with the matching standard deviations; the final model is the last estimate.
 Every epoch with a reading counts once, epochs without beacons or without a reading not at all. A file that is missing, unreadable, malformed or without frequency offsets, differing readings within one epoch, or a first file without any reading end in an error and no model; what was reported before that stays true.""",
 ["inputs", "histories"],
 """All series of readings, epochs, gaps, weights and splits into files, and all defects of the files.""",
 """No stable test runs the filter; a wrong cross term or weight only shows against the batch solution after several readings.""",
 ["src/doris/fit_rfo.cpp", "src/doris_rinex.hpp"], [("filter", "fit_relative_frequency_offset(char**,...), LinearKalman")], [], ["reported estimates, model, return codes"])

prop("C40", "Sun and Moon: asked at the right instant, forces and places in the stated units",
 """Third-body accelerations are the pull on the satellite less that on the Earth, in m/s2, of the Sun and the Moon where the ephemeris puts them relative to the Earth in J2000 at the terrestrial time of the given atomic time; the Moon's gradient is the derivative of its acceleration, and the Sun's position is handed on in metres. Answers depend on their own query only.
 The analytic series agree: the three for the Sun and the two for the Moon give the same directions and distances in km within their stated accuracies (allowing for the equinox they refer to) at all epochs, at the known seasons and eclipses too, and through dates as through centuries.""",
 ["inputs", "histories"],
 """All epochs (either side of a day's end in the other time scale), positions and sequences of queries; all epochs of a century for the series.""",
 """No stable test computes a third-body effect or a position of Sun or Moon.""",
 ["src/sunmoon.cpp", "src/planets/sunpos.cpp", "src/planets/moonpos.cpp", "src/planetpos.hpp"], [("third bodies", "SunMoon; sun_vector_*, moon_vector_*")], [], ["accelerations, gradient, positions; requests to the ephemeris"])

prop("C41", "Observation corrections: ionosphere removed, clock rate from potential and speed",
 """The ionospheric correction of a 2 GHz phase makes the corrected observation that of the path alone: with the carriers in the ratio 543:107 a dispersive effect of any size vanishes, from each observation and from every count between two, and without one the correction is zero.
 The relativistic rate correction is (U + V2/2)/C of the given position and velocity, where U is GM/r, or with flattening GM/r (1 - J2 (Re/r)^2 (3 sin2 lat - 1)/2): the two agree when J2 is zero, differ most over poles and half as much, the other way, over the equator.""",
 ["inputs", "histories"],
 """All observations (any path, any ionosphere, any pass), all positions, velocities, constants.""",
 """No stable test evaluates a correction.""",
 ["src/doris_observation_equations.hpp", "src/relativity/relativistic_clock_correction.cpp", "src/doris_system_info.hpp"], [("corrections", "carrier_iono_correction; relativistic_clock_correction")], [], ["returned corrections"])

prop("C42", "Configuration lookups: the whole value at the named path, or an error",
 """A lookup by two or three names in a parsed configuration gives the value that stands at exactly that path, as the type asked for (number, text, text in a buffer): the whole value, ended. Every path that names nothing, a section, or a value that is not entirely of the type asked for is an error, told by the return code: no lookup gives another section's value, part of a value, or leaves by an exception, whatever the configuration. A lookup does not affect later ones.""",
 ["inputs", "histories"],
 """All configurations (nested sections, equal names at several places, empty, sequences, a bare word), paths, types and sequences of lookups.""",
 """No stable test reads a configuration.""",
 ["src/var_utils.hpp", "src/var/yaml_utils.cpp"], [("lookups", "get_yaml_value_depth2, get_yaml_value_depth3")], [], ["return codes, values"])

prop("C43", "Earth-orientation table from bulletins: every day around the date once, or error",
 """The tool that makes an Earth-orientation table for a date from the monthly bulletins ends, after a bounded number of downloads, either with success and a table in which every day from N days before to N days after the date stands once, in order, each row with its date and the fourteen final values of its own day from its bulletin (no preliminary ones, no values of another day or section), or with an error when the bulletins do not hold those days. This holds wherever in their bulletins the interval begins and ends, and however many it spans.""",
 ["inputs", "histories"],
 """All dates, margins, first guesses and partitions of days into bulletins.""",
 """No test runs the tool; it needs the network.""",
 ["script/fetch_iers_c04.py"], [("search and merge", "main loop, c04_date_span, c04_cat")], [], ["exit status, written table, requests"])

prop("C44", "Site logs: each part's own fields; one table row for each antenna ever installed",
 """Reading block n of an IDS site log gives for each of its parts, in order, exactly that part's fields with their values, joined over the lines they go on, whatever follows: the next block of any site's log, or the end of the file; a block that is not there is an error. The table of a directory of logs has exactly one row for each antenna of each log: its own name, dates of installation and removal (the latest date if still there) and height in metres as logged, with or without decimals. Other blocks and files do not count. The first line gives the site's name.""",
 ["inputs", "histories"],
 """All logs (any blocks and parts, values with colons, several lines, empty values), directories and sequences of reads.""",
 """No test reads a site log.""",
 ["script/pydoris/pydoris/log/ids_log_parser.py", "script/ids_logs2station_info.py"], [("reader", "IdsLogFile.parse_block_nr, dump_log_antenna_info"), ("table", "ids_logs2station_info.py")], [], ["returned fields, written rows"])

prop("C45", "FORTRAN exponents: converted gravity model has the same lines and numbers",
 """Converting a gravity-model file whose numbers have the exponent letter D writes the same lines with the same words: up to the end of the header unchanged, after it with e for the letter in every such number, any number on a line, upper or lower case, whatever its sign and exponent. A file in which the header does not end is an error; the tool always ends. Both copies of the tool agree.""",
 ["inputs"],
 """All files of words and such numbers, with the header's end anywhere or nowhere.""",
 """No test runs the tool.""",
 ["script/gfc_fortran2c.py", "var/icgem/script/gfc_fortran2c.py"], [("converter", "whole tool")], [], ["exit status, output"])

if __name__ == "__main__":
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(here, "properties.jsonl"), "w") as f:
        for p in P: f.write(json.dumps(p) + "\n")
    print(len(P))
