"""per-property text of DESIGN.md (python3 tools/mkdesign.py)"""
N = {}

N['C01'] = '''
*Generator.* Epochs 1970-2099 built from calendar fields and from week/tow,
biased to leap seconds (one second before, at and after), month, year and week
edges and to fractions next to 0 and 1. *Oracle.* `datetime` and exact integer
arithmetic, a transcribed leap-second table. Round trips to 1 microsecond.
*Bounds.* No 128-bit time; textual epochs in the format the library documents.
'''
N['C02'] = '''
*Generator.* Exhaustive over systems, PRNs, satellite numbers, bands, all 26
letters as attribute, GLONASS channels -7..6; malformed strings from Hypothesis.
*Oracle.* Tables transcribed from RINEX 3.05/4.0x and the interface documents.
An arbitrary string yields a signal or a ValueError, nothing else.
'''
N['C03'] = '''
*Generator.* Sites over the globe with poles, date line and equator drawn
explicitly, heights -5 km..36000 km, all directions with the exact zenith.
*Oracle.* Vector geometry: foot point of the normal, rotation matrices, normal
matrices for the dilution of precision, spherical shell for the pierce point.
Arguments are compared before and after. *Bounds.* 1e-6 m forward, 2e-3 m for
the inverse, 1e-7 rad.
'''
N['C04'] = '''
*Generator.* Elements over the interface ranges of each system (eccentricity
to 0.18, GEO inclinations for BeiDou), query offsets within validity, GLONASS
times that lie exactly on, and a fraction next to, whole integration steps.
*Oracle.* An own implementation of the interface formulas (`vlib/orb.py`):
Newton solver of Kepler's equation, rotation matrices, numerical
differentiation for the velocity, DOP853 integration for GLONASS.
*Bounds.* mm for position; the velocity tolerance of CNAV-type messages allows
for the numerical derivative (an early tolerance was a false alarm).
'''
N['C05'] = '''
*Generator.* Lists of ephemerides of several satellites, systems, message types
and issues with toe at scattered and at almost equal distances from the query;
observations of several satellites; Compact SSR, RTCM, HAS, B2b, PVS/SBAS
style corrections; precise orbits. *Oracle.* A reference selection over the
whole list and a state model of its own (transmission time by light-time
iteration, group delays, SSR rotation to the radial/along/cross frame).
*Histories.* Each epoch is evaluated twice and all inputs are compared deeply.
*Excluded after false alarms.* Precise clock exactly zero (it is the format's
mark for "missing"); B2b clock issue of a satellite without a clock.
'''
N['C06'] = '''
*Generator.* Whole files from an independent writer (`vlib/rnx.py`): any mix of
record types, RINEX 3.02-4.02, Fortran exponents D/E, blank or stripped
trailing fields, records around week, day and Moscow-day boundaries, and
library output of such ephemerides. *Oracle.* The values written, at printed
precision. *Bounds.* RINEX epochs of GLONASS CDMA are rounded to 15 minutes by
the format; the health bits of LNAV l2p and of QZSS are not compared.
'''
N['C07'] = '''
*Generator.* RINEX 3/4 observation files with random observation code lists
over any number of header lines, event records, blank and stripped fields,
receivers with and without GLONASS; pairs of files with different rates, gaps
and starts. *Oracle.* The printed values; a reference merge of the two epoch
lists.
'''
N['C08'] = '''
*Generator.* SP3-c/d and Clock-RINEX files with random gaps, flags, standard
deviations, predicted parts; Kepler orbits in the rotating frame sampled at
300/900 s; queries inside, at the nodes, before and after the arc and around
missing clock nodes at its ends. *Oracle.* The values written; the analytic
orbit; header fields (number of epochs, MJD, day fraction, interval) of written
files. *Bounds.* Interpolation error of the tenth order polynomial. A clock of
exactly 0 and the rate at a node (of the next interval) are conventions of the
library and not judged.
'''
N['C09'] = '''
*Generator.* ANTEX and NGS files with several antennas, validity intervals and
frequencies, queried at, just before and just after the interval bounds;
Bias-SINEX files with satellite, station and mixed biases.
*Oracle.* Bilinear interpolation and projection written from the ANTEX
description; the substitution table documented in the library.
*Excluded.* Near the zenith the angle is ill conditioned and the tolerance is
widened; satellite-only GLONASS OSB (unspecified).
'''
N['C10'] = '''
*Generator.* Histories: mask, subtypes 1-12 with raw field values over their
whole range incl. "not available", several networks, mask changes, partial
subframes, wrong IOD; L6 frames with lost and interleaved parts; positions
between and beyond the grid points. *Oracle.* An independent encoder
(`vlib/cssrenc.py`) and a state model that keeps the last value per satellite,
signal and network; polynomial and inverse-distance interpolation on its own.
*Corrected false alarms.* Reference time t0 of STEC (the library keeps it per
network), hour crossings of the SSR epoch, ties between grid points at equal
distance (not judged).
'''
N['C11'] = '''
*Generator.* HAS messages of all blocks, coded with an independent
RS(255,32) generator into pages which arrive in any order, repeated, lost,
mixed with dummy pages and pages of other messages. *Oracle.* The message bytes
and a state model from the SIS ICD. The page timeout follows the library.
'''
N['C12'] = '''
*Generator.* Histories of messages 1-7 with mask changes, issues that match and
do not, unavailable values. *Oracle.* A model from the PPP-B2b ICD.
*Not judged.* URA class 7 value 7 is ambiguous; the slot convention of MT6 is
that documented in the library.
'''
N['C13'] = '''
*Generator.* Coverage messages with rectangles and circles around generated
positions (inside, border, outside; longitudes 0..360 and +-180).
*Oracle.* Point in area and polynomial. The library measures the distance in a
plane (cosine of the reference latitude), so positions closer than 4% to the
border are not judged.
'''
N['C14'] = '''
*Generator.* DFMC histories for the PVS decoder (slots up to 195, even and odd
epochs, time of applicability across the day); lines of SISNeT compressed with
an own compressor. *Oracle.* Model of the held corrections; the original bytes.
'''
N['C15'] = '''
*Generator.* Covariances from random correlations, eigenvalues over eight
decades and double-difference structures, floats near and far from integers,
ties. *Oracle.* Exhaustive enumeration inside an ellipsoid large enough for the
answer, information-form least squares, closed-form bootstrapping.
*Corrected.* Tolerances scale with the offset and the condition (cond(Q) up to
1e9, smallest eigenvalue at least 1e-8). Partial resolution for parmode 2 only
(parmode 3 is unusable). The order of equally distant candidates is free.
'''
N['C16'] = '''
*Generator.* Byte streams of valid frames, garbage and false preambles; error
bursts within the guaranteed capability of CRC-24Q; MSM1-7 for six systems
with random masks, fine/rough ranges, lock times over several epochs; all
ephemeris, station, antenna, bias and residual messages.
*Oracle.* Independent encoders (`vlib/rtcmenc.py`), a model of lock time and
half-cycle. *Corrected.* Epochs within a leap second of the week edge for
GLONASS (undefined week).
'''
N['C17'] = '''
*Generator.* Histories of SSR messages of several providers and issues, split
and unsplit, in the official, proposed and IGS numbering; encode requests with
values on and between the quantisation steps. *Oracle.* Independent bit-level
encoder (`vlib/rtcmssr.py`) in both directions and a model of "latest".
*Corrected.* High-rate clocks of an older epoch may be kept; BDS signal mode 15
and GLONASS G3 modes are unspecified. *Open finding.* Grid definition type 2
(`known_grid2`).
'''
N['C18'] = '''
*Generator.* A transmitter (`vlib/nmasim.py`) signs I/NAV sub-frames of several
satellites with TESLA chains, MAC look-up tables, FLEX slots, root keys,
key renewal, and an attacker alters pages, tags, keys, signatures, reorders and
mixes root-key parts; pages are lost. *Oracle.* What the transmitter knows to be
genuine and complete must be authenticated, everything altered must not.
*Corrected.* Root-key parts without padding; look-up tables 28 and 37 are not
in the library.
'''
N['C19'] = '''
*Generator.* LNAV/CNAV/F-NAV/I-NAV bits of several satellites and issues,
signatures with several key numbers, altered data, salt, header, lost parts.
*Oracle.* An independent signer (P-256 from the cryptography package used as a
black box). *Convention.* The bits excluded from the signature are those of the
library's tables; L6 numbering of GPS satellites follows the library.
'''
N['C20'] = '''
*Generator.* Histories of L1 (MT0-28, 9, 17, 18, 26) and L5 (MT31-47) messages
with masks changing, timeouts passing, issues mixed; grids around a
pierce point with delays linear in latitude and longitude. *Oracle.* An
independent encoder and state model; the linear field itself.
*Corrected.* Almanac mean anomaly modulo 2 pi and validity only of usable
satellites; between 75 and 85 degrees only fields independent of longitude are
judged, beyond not at all; the bump of DFREI 14 is not judged.
'''
N['C21'] = '''
*Generator.* Scenes (`vlib/possim.py`): random constellations with ephemerides
of every system, troposphere, ionosphere, group delays, receiver clock jumps,
satellites which are unhealthy, low, weak, slipping, excluded or without
ephemeris, over several epochs. *Oracle.* The true position, clock, velocity;
metamorphic: arbitrary pseudoranges of unusable satellites change nothing;
a textbook Hatch filter per satellite; alternating code errors averaged out.
*Corrected.* Lag of the clock drift and of the kinematic filter (tolerance),
0.08 x GDOP in static mode, bound (0.01+0.14 sigma) x GDOP for the smoothing.
'''
N['C22'] = '''
*Generator.* Sites (both hemispheres, below and above the ellipsoid), epochs
over the year, all elevations. *Oracle.* The published algorithms written
again; monotonicity and mapping 1 at the zenith. *Corrected.* The Klobuchar
cosine series is cut at 1.57, exact ties are not judged.
'''
N['C23'] = '''
*Generator.* SLAS histories over masks, issues, stations, unhealthy stations;
scenes with arbitrary errors common to base and rover. *Oracle.* A model of the
decoder state; the true position. *Bounds.* nav.time_p is set by the user, QZSS
PRN 193-201, longitudes 36-175 E, issues below 256, ties of the nearest station
within the plane approximation are not judged.
'''
N['C24'] = '''
*Generator.* DC reports of all twelve JMA types and CAMF messages from an own
encoder of the bit layouts, received at random times incl. the turn of month
and year; texts sent in pages in any order, several messages interleaved.
Code tables are generated. *Oracle.* The values encoded; names are searched as
whole words in the text. CAMF ellipse axes have a tolerance of 3e-3.
'''
N['C25'] = '''
*Generator.* Epochs 2000-2036, sites and satellites everywhere. *Oracle.*
PyEphem, PySolid (through its formulas), closed forms; continuity of the
wind-up along complete turns of a generated arc. *Bounds.* 0.02 degrees for the
sun, 0.45 degrees for the moon, 6 mm for the tide from the truncated series.
'''
N['C26'] = '''
*Generator.* Base and rover observations over several epochs with flagged slips,
slips visible in the geometry-free combination, gaps, weak signals, unusable
satellites; one to three frequencies; troposphere and ionosphere estimated or
not. *Oracle.* The true rover position and integers. Noise facet: errors
against the sigma the filter states. *Corrected.* Exact zero single differences
of a zero baseline (0 means missing: a clock offset of 137.3 m is used),
ionosphere estimation with a single frequency (ill posed), satellites returning
after a gap may be edited, linearisation in height (tolerance), moving
rovers after epochs without geometry, W-code signals have a lower C/N0 limit.
*Not judged.* Weights between satellites (equivalent optimum).
'''
N['C27'] = '''
*Generator.* `vlib/ppsim.py` builds a receiver whose observations contain every
stated effect and a correction source: broadcast, eight SSR services, or
precise products, each with its own sign and reference conventions; satellites
lacking something; slips, gaps. *Oracle.* The true position, integers and
troposphere. *Bounds.* Priors and weights so that they dominate; PVS rates
reduced; GLONASS FDMA only bounded; partially fixed solutions within 0.1 sigma
of the filter's covariance; satellites without antenna or bias still count
among the six the library requires.
'''
N['C28'] = '''
*Generator.* End-to-end: Compact SSR messages are encoded, decoded by the
library and used in the filter with observations generated from the transmitted
(quantised) corrections, over subtypes, networks, mask changes and updates.
*Oracle.* The true position to millimetres with fixed ambiguities.
*Bounds.* Longitudes within 170 degrees, QZSS PRN 193-202; epochs without
tropospheric corrections are not judged themselves, those after are.
'''
N['C29'] = '''
*Generator.* Pages of every navigation message (`vlib/rawenc.py`) from random
raw fields, satellites interleaved, pages lost, issues changing, foreign pages.
*Oracle.* The raw fields scaled by the interface documents; a model of which
sets are complete; differential: RINEX round trip. *Bounds.* D2 page 3 has 38
spare bits; GLONASS CDMA strings of different issues can mix (not claimed);
L1OC strings 11/12 read past the string (not claimed); signed accuracy indices
are compared modulo; MT10 as last message of the week is excluded.
'''
N['C30'] = '''
*Generator.* Histories of messages 2000-2091 and sub-messages 9 and 10 with
random masks, optional fields, numbers of area points. *Oracle.* Raw fields and
tables transcribed from the standard's text. *Bounds.* MT2000 with at least one
constellation (it keeps stale values otherwise, recorded below); the drafts
3-13 are not judged. quality_idx(7,6) saturates to the same value as its
neighbour, so a mutation there is equivalent.
'''

OPEN = '''
## Defects seen, neither repaired nor claimed

Behaviour outside of the stated domains, recorded so that nobody takes the
properties to cover it: `merge_cssr` has no callers and does not work;
`get_trop` ignores ct[1,0] for flg_trop 1; areas across the date line in
get_dpos/find_grid_index; lc has 33 entries (gid up to 32); mlambda stops the
process for a conditional variance under 1e-10 and its parmode 3 does not work;
rtcm.encode_msm is unusable, NavIC MSM and RTCM SSR 1246-1263 are not asserted;
encode_integrity_ssr writes an older layout; decode_tvs_mc raises KeyError;
CNAV2 of GPS through L6 is not supported by qznma; the J-Alert guidance table
raises KeyError for keys it lacks; stdpos with nf=2 and rmode 0 has zero rows;
rtkpos ignores trop_opt/iono_opt/phw_opt = 0, rtkpos sets sig_p0 after P was
built, sig_qb is never applied; armode 2 is armode 1; nav.vsat is never
cleared; satposs applies SSR orbit and clock rates for PVS/SBAS only and uses
obs.P[i,0] even when zero; find_bias writes GC2W into the stored corrections
for HAS. With all satellites lacking atmospheric corrections pppos reports
smode 5 all the same.

Not exercised: plot.py, tlesim.py, utils.py, log output of pppssr
(monlevel > 0), decode_ssr_metadata beyond its first entry, encode_msm.
'''
