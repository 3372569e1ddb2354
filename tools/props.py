"""source of properties.jsonl and MANIFEST.json (python3 tools/mkmeta.py)"""
P = []


def prop(id, title, statement, over, text, why, files, mech, technique, note,
         obs=()):
    P.append(dict(id=id, title=title, statement=statement, over=over,
                  text=text, why=why, files=files, mech=mech,
                  technique=technique, note=note, obs=list(obs)))


S = 'src/cssrlib/'
prop('C01', 'Time systems convert consistently and without loss',
     'Calendar epochs, GPS/Galileo/BeiDou week and time-of-week, UTC and '
     'GLONASS time-of-day all name the same instant: every conversion agrees '
     'with the civil calendar and the published leap-second table, and '
     'converting back returns the original instant to the microsecond. Adding '
     'and differencing times follow exact arithmetic, never modify their '
     'operands, and rollover resolution returns the alias closest to the '
     'reference.',
     ['inputs'], 'all epochs 1980-2099 (calendar 1970-2099), any week/tow, '
     'any offset, leap-second edges, fractions of a second',
     'the tests only ever use a handful of epochs of one day in 2021; no '
     'rollover, leap second or year boundary is reached',
     [S+'gnss.py'],
     [('epoch/week/UTC conversions', S+'gnss.py epoch2time..time2doy'),
      ('rollover', S+'gnss.py adjtime, tod2tow, glo2time')],
     'property-based testing against datetime and a leap-second table',
     'Generated epochs; oracle is exact integer arithmetic.')
prop('C02', 'Satellite and signal identifiers are one-to-one and faithful',
     'Every PRN of the seven systems has its own satellite number, and number, '
     'PRN and RINEX identifier convert into each other without loss. RINEX '
     'observation codes are accepted exactly when the RINEX tables allow that '
     'attribute for that system and band, print back unchanged, keep their '
     'identity under type/attribute replacement, and map to the carrier '
     'frequency (GLONASS: by channel) and wavelength of that band.',
     ['inputs'], 'all satellites, all system/type/band/attribute combinations '
     'and GLONASS channels (exhaustive), plus malformed strings',
     'the existing test prints a few codes and asserts nothing',
     [S+'gnss.py'],
     [('satellite numbering', S+'gnss.py prn2sat, sat2prn, sat2id, id2sat'),
      ('signal codes', S+'gnss.py rSigRnx')],
     'exhaustive enumeration against the RINEX tables, plus generated strings',
     'Exhaustive over the finite code space; tables transcribed from RINEX '
     '3.05/4.0x.')
prop('C03', 'Geodetic and viewing-geometry transforms are mutually consistent',
     'Geodetic and Cartesian positions convert into each other anywhere on '
     'and above the Earth, including poles and date line, and the local '
     'east-north-up frame is orthonormal and correctly oriented. Azimuth, '
     'elevation, range with Earth-rotation correction, dilution of precision '
     '(honouring the elevation mask) and ionospheric pierce points follow '
     'from the geometry. None of these conversions changes its arguments.',
     ['inputs'], 'positions over the globe, heights -5 km to 36000 km, all '
     'directions including the zenith',
     'tests only look at one station; poles, zenith and argument aliasing are '
     'never exercised',
     [S+'gnss.py'],
     [('transforms', S+'gnss.py ecef2pos, pos2ecef, xyz2enu, satazel, '
       'geodist, dops, ionppp')],
     'property-based testing against vector geometry',
     'Tolerances: 1e-6 m forward, 2e-3 m inverse, 1e-7 rad.')
prop('C04', 'Broadcast ephemerides and almanacs yield the specified satellite state',
     'For any broadcast ephemeris of GPS, Galileo, QZSS, BeiDou (including '
     'geostationary satellites), NavIC or GLONASS, the computed position, '
     'velocity and clock offset equal those defined by the interface '
     'specifications throughout the validity period, whatever the '
     'eccentricity or navigation message type. Almanacs read from Yuma and '
     'Galileo XML files keep every value, resolve the week rollover, and give '
     'the position and clock of the plain Kepler orbit; the almanac selected '
     'is the one of that satellite nearest in time.',
     ['inputs'], 'orbital elements over the broadcast ranges, time offsets '
     'within validity, message types',
     'the test plots one QZSS orbit and asserts nothing',
     [S+'ephemeris.py'],
     [('orbit models', S+'ephemeris.py eph2pos, geph2pos, eph2clk, alm2pos'),
      ('almanac files', S+'ephemeris.py loadyuma, loadXmlAlmanac, findalm')],
     'property-based differential testing against an independent ICD model',
     'Reference: Newton Kepler solver, rotation matrices, numerical '
     'differentiation, DOP853 integration for GLONASS.')
prop('C05', 'Ephemeris selection and satellite states for observations are correct',
     'The ephemeris used for a satellite is of that satellite and message '
     'type, within its validity age, matches the issue of data when one is '
     'asked for, and otherwise is the nearest in time; if there is none, the '
     'satellite is left out and flagged. States of observed satellites are '
     'those at signal transmission time, with SSR orbit, clock and velocity '
     'corrections applied exactly once and only to the matching ephemeris. '
     'Evaluating the same epoch again gives the same result and leaves '
     'observations, ephemerides and corrections unchanged.',
     ['inputs', 'histories'],
     'ephemeris sets, query times, pseudoranges, correction states '
     '(current/previous mask, missing or invalid corrections), repeated calls',
     'the tests have one static ephemeris file and no SSR data',
     [S+'ephemeris.py'],
     [('selection', S+'ephemeris.py findeph'),
      ('states', S+'ephemeris.py satposs, satpos')],
     'property-based model comparison, idempotence under repetition',
     'Reference state model as in C04; SSR sign and frame conventions of the '
     'Compact SSR / RTCM / PVS specifications as used by the library.')
prop('C06', 'RINEX navigation files are read and written without loss',
     'Every ephemeris record of a RINEX 3.02-4.02 navigation file (GPS/QZSS '
     'LNAV, CNAV, CNAV-2, Galileo I/NAV and F/NAV, BeiDou D1/D2 and CNAV-1/2/3, '
     'NavIC LNAV and L1NAV, GLONASS FDMA and CDMA, SBAS) and every system-time, '
     'Earth-orientation and ionosphere message appears in order, with each '
     'parameter at full file precision and all epochs in GPS time, for any '
     'legal formatting (Fortran exponents, blank or trailing-stripped spare '
     'fields). A file that is appended keeps earlier records, and what the '
     'library writes is read back as the same ephemerides.',
     ['inputs'], 'files of generated records of all types and versions, '
     'random field values, formatting variants, library output',
     'the tests read a few LNAV records and print them',
     [S+'rinex.py'],
     [('reader', S+'rinex.py rnxdec.decode_nav'),
      ('writer', S+'rinex.py rnxenc.rnx_nav_body, rnx_gnav_body')],
     'property-based testing with an independent file writer; round trip of '
     'library output',
     'Independent writer from the RINEX record tables (vlib/rnx.py).')
prop('C07', 'RINEX observation files are read, written and synchronised faithfully',
     'Every wanted pseudorange, phase, Doppler and signal strength of every '
     'epoch is returned for the right satellite and signal, exactly as '
     'printed; missing values are zero, loss-of-lock indicators follow bit 0, '
     'event records are skipped, and header information (approximate position, '
     'antenna offset, types, observation codes over any number of lines, '
     'GLONASS channels, time span) is exact. Substituted signals exist in the '
     'file. Library output is read back identically, and rover and base files '
     'are paired epoch by epoch until the end of either file.',
     ['inputs', 'histories'], 'headers with any number of codes per system, '
     'unequal signal selections, blanks, events, stripped lines; pairs of '
     'epoch sequences',
     'the tests read two epochs of a single receiver file',
     [S+'rinex.py'],
     [('reader', S+'rinex.py decode_obsh, decode_obs, autoSubstituteSignals'),
      ('writer', S+'rinex.py rnx_obs_header, rnx_obs_body'),
      ('pairing', S+'rinex.py sync_obs')],
     'property-based testing with an independent file writer; round trip; '
     'reference merge for pairing',
     'Independent writer of RINEX 3/4 observation files.')

prop('C08', 'Precise orbit and clock products are read, written and interpolated correctly',
     'Every valid position, clock, velocity and standard deviation of an SP3-c/d '
     'file and every clock of a Clock-RINEX file is stored for its satellite and '
     'epoch; missing values stay missing, predicted values can be filtered. '
     'Written SP3 files read back to the same values. Interpolated satellite '
     'position, velocity, clock (with periodic relativity) and variance agree '
     'with the sampled orbit anywhere inside the arc; nothing is returned from '
     'missing nodes, from too few nodes, or beyond the validity of the product.',
     ['inputs'], 'files of random satellites, epochs, missing values and flags; '
     'arcs sampled from analytic orbits, query epochs at and between nodes',
     'the tests look at one file and a single epoch',
     [S+'peph.py', S+'rinex.py'],
     [('SP3', S+'peph.py parse_sp3, write_sp3'), ('clock', S+'rinex.py decode_clk'),
      ('interpolation', S+'peph.py pephpos, pephclk, peph2pos')],
     'property-based testing: independent file writers, round trip, analytic orbits as oracle',
     'Kepler orbits in a rotating frame; tolerances are the interpolation '
     'error of the tenth order polynomial for 300/900 s steps.')
prop('C09', 'Antenna calibrations and signal biases are applied as published',
     'ANTEX and NGS antenna files yield for each antenna the published offsets '
     'and elevation-dependent variations per frequency, and the antenna valid at '
     'the epoch is selected. Receiver and satellite range corrections and the '
     'phase-centre to centre-of-mass shift equal the projection of the offsets '
     'in the local (yaw-steering) frame plus the interpolated variation, also '
     'relative to an ionosphere-free reference and with documented substitute '
     'frequencies; uncalibrated signals give no number. Bias-SINEX differential '
     'and observable-specific biases are returned only for their satellite, '
     'signal, station and validity interval.',
     ['inputs'], 'files with any antennas, frequencies, validity intervals and '
     'biases; random line of sight, attitude and signal sets',
     'the tests read one ANTEX and one bias file',
     [S+'peph.py'],
     [('files', S+'peph.py atxdec, biasdec'), ('models', S+'peph.py antModelRx, antModelTx, apc2com')],
     'property-based testing with independent file writers and a reference antenna model',
     'Frequency substitution follows the table documented in the library; sun '
     'position for apc2com from PyEphem.')
prop('C10', 'Compact SSR corrections are decoded and interpolated as transmitted',
     'For any history of Compact SSR messages (mask, orbit, clock, code and '
     'phase bias, network bias, URA, STEC, gridded and atmospheric '
     'corrections, service information, combined corrections) the decoder '
     'holds exactly the transmitted values per satellite, signal and network, '
     'unavailable values as not-a-number, with their times, issue of data and '
     'update intervals; messages of another mask are not applied. L6 '
     'transmissions are reassembled bit-exactly from complete subframes only. '
     'Zenith and slant delays at a position are the transmitted polynomial plus '
     'the inverse-distance interpolation over the surrounding grid points of '
     'the nearest network, and outdated corrections are dropped.',
     ['histories', 'inputs'], 'random mask and message sequences with all '
     'optional parts and extreme raw values, lost L6 frames, facility changes, '
     'random networks and rover positions',
     'no test feeds a single Compact SSR message',
     [S+'cssrlib.py'],
     [('messages', S+'cssrlib.py cssr.decode_cssr*'), ('L6', S+'cssrlib.py decode_l6msg'),
      ('local', S+'cssrlib.py find_grid_index, get_trop, get_stec')],
     'stateful model-based testing with an independent message encoder',
     'Encoder and state model from IS-QZSS-L6 (vlib/cssrenc.py); the fourth '
     'grid point rule is only asserted when geometrically unambiguous.')
prop('C11', 'Galileo HAS messages are recovered and decoded as transmitted',
     'From the pages received by any set of satellites, in any order, with '
     'repetitions, losses, dummy pages and pages of other messages, a HAS '
     'message is output exactly once enough distinct pages have arrived and '
     'equals the transmitted bytes. For any history of HAS messages the decoder '
     'holds exactly the transmitted orbit, clock (full set and subset with '
     'multipliers), code and phase corrections; unavailable and do-not-use '
     'values are not-a-number; corrections of another mask and invalid headers '
     'are not applied.',
     ['histories', 'inputs'], 'random page streams of Reed-Solomon coded messages '
     'of 1-32 pages; random message sequences with every combination of blocks',
     'no test decodes a HAS page or message',
     [S+'cssr_has.py'],
     [('pages', S+'cssr_has.py cnav_msg'), ('messages', S+'cssr_has.py cssr_has')],
     'stateful model-based testing with an independent RS(255,32) encoder and message encoder',
     'Encoder and state model from the HAS SIS ICD; page timeout follows the library convention.')
prop('C12', 'BeiDou PPP-B2b messages are decoded as transmitted',
     'For any history of PPP-B2b messages 1-7 (masks, orbits, code biases, '
     'clocks, URA, combined messages) the decoder holds exactly the transmitted '
     'values of the satellites in the current mask with the right issue of data '
     'and reference time, keeps the previous clock of another issue, gives '
     'not-a-number for unavailable values, and applies nothing of another IOD '
     'SSR or IODP.',
     ['histories', 'inputs'], 'random mask changes, issues of data, satellite slots '
     '(including unknown ones), reserved signals and extreme values',
     'no test decodes a PPP-B2b message',
     [S+'cssr_bds.py'],
     [('messages', S+'cssr_bds.py')],
     'stateful model-based testing with an independent message encoder',
     'Model from the PPP-B2b ICD with the slot convention of MT6 documented in the library.')
prop('C13', 'MADOCA-PPP ionospheric areas and corrections',
     'For any history of MADOCA-PPP coverage and correction messages, a user '
     'position is assigned to an announced area that contains it (rectangle or '
     'circle, any longitude convention) and to none when outside of all, and '
     'the slant delay is the transmitted polynomial of that area evaluated at '
     'the offset from the reference point.',
     ['histories', 'inputs'], 'random areas around the antimeridian and Greenwich, '
     'all polynomial types, any satellites, positions inside, outside and near boundaries',
     'no test decodes a MADOCA-PPP message',
     [S+'cssr_mdc.py'],
     [('messages and areas', S+'cssr_mdc.py')],
     'stateful model-based testing with an independent message encoder',
     'Positions closer than 4% to a circle boundary are not judged.')
prop('C14', 'SouthPAN PVS corrections and SISNeT compression',
     'For any history of DFMC messages the PVS decoder holds the transmitted '
     'orbit and clock corrections with their rates, referred to the transmitted '
     'time of applicability, for odd epochs and known slots only, and drops '
     'outdated ones. Any SISNeT compressed line expands to the original message.',
     ['histories', 'inputs'], 'random slots, times around midnight, extreme values, '
     'other message types; random runs under several compression settings',
     'no test decodes a PVS message or SISNeT line',
     [S+'cssr_pvs.py'],
     [('messages', S+'cssr_pvs.py cssr_pvs'), ('compression', S+'cssr_pvs.py decode_sinca_line')],
     'stateful model-based testing and round-trip with an independent encoder',
     'Smallest two\'s-complement values are not generated.')
prop('C15', 'Integer least squares, success rate and Kalman update',
     'For any positive definite covariance and float vector, LAMBDA returns the '
     'integer vectors with the smallest weighted distances in order, with those '
     'distances, independent of integer shifts and ordering; the success rate is '
     'a bootstrapped rate (bounded by ADOP, exact for independent ambiguities and for pairs), '
     'and partial resolution only fixes at the requested rate. The Kalman '
     'measurement updates equal weighted least squares with the prior, leave '
     'inactive states alone and do not depend on the order of measurements. DOP '
     'values are the formal standard deviations of the solution.',
     ['inputs'], 'random strongly correlated covariances (hidden unimodular '
     'transformations, up to 12 ambiguities, offsets up to 1e8 cycles), ties, 1-5 '
     'candidates; random Kalman problems with inactive states, correlated or duplicate '
     'measurements; random sky distributions',
     'one fixed covariance matrix is tested',
     [S+'mlambda.py', S+'gnss.py', S+'pppssr.py'],
     [('LAMBDA', S+'mlambda.py mlambda'), ('Kalman update', S+'gnss.py kfupdate, pppssr.py kfupdate'),
      ('DOP', S+'gnss.py dops')],
     'differential testing against exhaustive lattice enumeration and information-form least squares',
     'Partial resolution is judged for parmode=2; candidates with equal distance may come in any order.')
prop('C16', 'RTCM 3 framing, observations, ephemerides and station data',
     'Valid RTCM 3 frames anywhere in a byte stream are found and accepted, any '
     'corruption within the guaranteed capability of CRC-24Q is rejected. For any '
     'MSM1-7 of GPS, GLONASS, Galileo, QZSS, BDS and SBAS the decoder yields the '
     'transmitted epoch, satellites, signals, ranges, phases in cycles of the right '
     'carrier, C/N0, and loss of lock and half-cycle flags following the lock time '
     'history; invalid cells are empty. Ephemeris messages yield every element, '
     'epochs in the right week, and health; station, antenna, bias and residual '
     'messages yield what was sent.',
     ['histories', 'inputs'], 'random messages of each type with extreme field values, '
     'epochs around week, day and 10-bit week rollovers, lock time histories with '
     'changing satellites and signals, streams with garbage and truncated frames, error '
     'patterns of 1-3 bits, odd counts, and bursts up to 24 bits',
     'no test decodes RTCM observations, ephemerides or station messages',
     [S+'rtcm.py'],
     [('framing', S+'rtcm.py rtcm.sync, checksum, rtcme.set_*'), ('observations', S+'rtcm.py decode_msm'),
      ('ephemerides', S+'rtcm.py decode_*_eph'), ('station', S+'rtcm.py decode_sta_pos, decode_ant_desc, decode_glo_bias')],
     'model-based testing with independent encoders, round-trip and error injection',
     'NavIC MSM is not supported by the library. Doppler is not output. '
     'The week of observations is the GPS week set by the user.')
prop('C17', 'RTCM and IGS state-space messages',
     'For any history of RTCM SSR (official, proposed and test numbers) and IGS SSR '
     'messages the decoder holds, after every message, the transmitted corrections of '
     'the latest epoch with scale, sign, reference epoch, IOD, provider, datum and '
     'update interval, and never a correction that was not the latest one received '
     'for its satellite and signal; biases are keyed by signal. Wide-lane groups, '
     'tropospheric and ionospheric corrections, grids and antenna corrections are '
     'stored for their system and grid. An encoded message is bit for bit the message '
     'of the nearest representable corrections.',
     ['histories', 'inputs'], 'random mixes of systems, families and types with equal or '
     'advancing epochs around midnight, extreme and not-available values, logging on and off, '
     'stores holding other systems',
     'no test decodes or encodes an SSR message of RTCM',
     [S+'rtcm.py'],
     [('decoding', S+'rtcm.py decode_cssr_*, decode_ssr_*, decode_igsssr'), ('encoding', S+'rtcm.py rtcme')],
     'stateful model-based testing with an independent bit-level encoder, differential encoding',
     'Grid numbers up to 32 (capacity of the decoder). VTEC contents are not output by the library. '
     'Wide-lane flags of signals without a wide-lane message are not judged.')
prop('C18', 'Galileo OSNMA: only navigation data signed by the system is authenticated',
     'For any history of I/NAV pages with OSNMA, lost pages included, navigation data is '
     'authenticated when its tag, received in the sub-frame before the disclosure of '
     'the key, matches under a key that leads through the TESLA chain to a root key '
     'signed by an accepted public key, and is never authenticated when data, tags, '
     'tag information, keys, root key or signature were altered, the tag came after '
     'its key, or root key parts of different messages were mixed. Public keys are '
     'accepted from the broadcast key renewal message only with a valid Merkle '
     'path and padding. Keys stored in files are those loaded.',
     ['histories', 'inputs'], 'simulated transmissions of 2-6 satellites over up to 17 '
     'sub-frames, every key and byte-sized tag length, hash and MAC function, MAC '
     'look-up tables, week rollover, old root keys, page losses, data changes, and 11 '
     'kinds of attack',
     'no test runs OSNMA',
     [S+'osnma.py'],
     [('authentication', S+'osnma.py osnma.decode, verify_*'), ('keys', S+'osnma.py verify_pk, load_*')],
     'model-based testing with an independent transmitter simulator and attacker',
     'Tags of 24, 32 and 40 bits, look-up tables except 28 and 37 (and those reserved), P-256 keys.')
prop('C19', 'QZSS QZNMA: only navigation data with a valid signature is authenticated',
     'A GPS LNAV/CNAV or Galileo F/NAV, I/NAV message received for a satellite and '
     'issue of data is counted authenticated exactly when a signature on L6 for it '
     'verifies with the key of its key number; a QZSS LNAV, CNAV or CNAV2 message '
     'when the three parts of the preceding signature were received and verify. '
     'Changed data, signature, salt, header, wrong or unknown keys, unknown satellites and lost '
     'parts never lead to authentication and never stop the receiver.',
     ['histories', 'inputs'], 'files of interleaved messages of several satellites, issues and modes, '
     'L6 messages with two signatures, QZSS streams starting in the middle, around the '
     'week boundary and with losses, single bit changes anywhere',
     'no test runs QZNMA',
     [S+'qznma.py'],
     [('L6 signatures', S+'qznma.py decode_gnss_rds, verify_gnss_nav, load_navmsg_*'),
      ('QZSS signatures', S+'qznma.py gen_rds, verify_qzss_nav, decode')],
     'model-based testing with an independent signer and attacker',
     'A receiver decodes one message type per QZSS satellite. The fields excluded from the '
     'signature follow the tables of the library.')
prop('C20', 'SBAS L1 and dual-frequency (DFMC) SBAS messages',
     'For any history of SBAS L1 and L5 messages the decoder holds, after every '
     'message, the latest transmitted mask, fast and long-term corrections, UDREI and '
     'DFREI, degradation and covariance data, ranging data, ephemeris, almanacs, service '
     'regions and ionospheric grid, each for its satellite or grid point with sign, scale and '
     'reference time; messages of another issue of the mask change nothing, '
     'satellites removed from the mask are not corrected, old corrections end. The slant '
     'ionospheric delay is interpolated from the monitored grid points around the '
     'pierce point only, and reproduces a delay linear in latitude and longitude.',
     ['histories', 'inputs'], 'random histories with changing masks and issues, slots at and beyond the '
     'end of the mask, mixed messages, epochs around midnight; grids in all bands '
     'with points not received or not monitored, around grid lines and the date line',
     'no test decodes SBAS messages',
     [S+'sbas.py', S+'pntpos.py'],
     [('L1', S+'sbas.py decode_sbas_*'), ('L5', S+'sbas.py decode_dfmc_*, decode_cssr_orb'),
      ('ionosphere', S+'sbas.py searchIGP, ionoSBAS, pntpos.py ionmodel')],
     'stateful model-based testing with an independent encoder, analytic delay fields',
     'The largest positive values are not generated (the library treats them as not '
     'available). IODF of integrity messages is 3 (all). Offsets of the OBAD '
     'ranges are not judged. Pierce points below 75 degrees latitude.')
prop('C21', 'Standalone positioning recovers position, velocity and clock',
     'From consistent pseudoranges of at least four healthy satellites above the '
     'elevation mask the standalone solution gives, in every epoch, the receiver position, clock '
     'bias and DOP (velocity and clock drift when moving), with broadcast clocks, '
     'relativity, group delays, Earth rotation, troposphere and ionosphere accounted for, for all '
     'constellations, single-frequency or ionosphere-free, with and without carrier '
     'smoothing, across receiver clock jumps. Unhealthy, excluded, low, weak or '
     'slipping satellites and those without ephemeris have no influence, whatever they '
     'transmit. Carrier smoothing follows the Hatch filter and restarts after gaps and slips.',
     ['histories', 'inputs'], 'simulated receivers anywhere up to 75 degrees latitude, 6-11 satellites of up to '
     'five systems plus low and faulty ones, static and moving, several epochs',
     'the only test of a positioning engine is one RTK data set; none runs this one',
     [S+'pntpos.py', S+'pppssr.py'],
     [('engine', S+'pntpos.py stdpos'), ('editing', S+'pppssr.py pppos.qcedit')],
     'property-based testing against an independent observation simulator',
     'One frequency for single-frequency solutions, two for ionosphere-free ones; initial position '
     'within 100 m, receiver clock jumps above 300 m; no inter-system biases; '
     'tolerances scale with the GDOP (up to 20).')
prop('C22', 'Atmosphere models follow their definitions',
     'For every site, direction and epoch the Klobuchar ionosphere, the RTCA MOPS, Hopfield and Saastamoinen/Niell '
     'troposphere zenith delays and mapping functions, and the ionospheric pierce '
     'point equal their published definitions, in both hemispheres, all seasons and times of '
     'day; mapping functions are 1 in the zenith and never grow with elevation.',
     ['inputs'], 'latitudes from pole to pole, table nodes included, heights -400 to 9000 m, '
     'elevations 1 to 90 degrees, any broadcast coefficients, any epoch',
     'the tests evaluate none of these models or only one site and epoch',
     [S+'gnss.py', S+'pntpos.py'],
     [('troposphere', S+'gnss.py tropmodel, tropmapf'), ('ionosphere', S+'pntpos.py ionKlobuchar, gnss.py ionppp')],
     'property-based testing against independent models',
     '')
prop('C23', 'Differential corrections (QZSS SLAS) are decoded and applied as sent',
     'After any history of SLAS messages the decoder holds, for every reference station (codes '
     '0-62), its position, the satellites, pseudorange corrections, issues of data and age '
     'last sent for it under the current mask and issue; messages of another mask or issue and of unhealthy '
     'stations change nothing. With them a rover near the reference station gets its position free of '
     'all errors common to both, with the troposphere corrected for the difference of '
     'the sites; satellites without correction or with other ephemerides have no influence, '
     'and neither have corrections of other stations.',
     ['histories', 'inputs'], 'random message histories with changing masks, issues, empty entries, partial '
     'masks; simulated rovers with several stations, decoy ephemerides and arbitrary common errors',
     'no test decodes SLAS messages',
     [S+'dgps.py', S+'pntpos.py', S+'ephemeris.py'],
     [('messages', S+'dgps.py dgpsDec.decode_mt47..mt51'),
      ('position', S+'dgps.py get_station, set_dgps_corr; pntpos.py zdres; ephemeris.py satposs')],
     'stateful model-based testing with an independent encoder and observation simulator',
     'At most 14 corrections per message (what fits), issues of data below 256, rover in the '
     'longitudes the messages can express. The tables of the companion repository cssrlib-data, which the constructor '
     'reads, are replaced by generated ones.')
prop('C24', 'Emergency warning messages decode to what was sent',
     'Every DC report (all twelve JMA types) and every CAMF alert with its extended '
     'message decodes to the content, position and area encoded in it; report, event, arrival and onset times '
     'are right at any time of reception, including the turn of a month or year; paged texts are '
     'assembled in any order of pages, free of pages of other messages; the '
     'printed text names the encoded regions and hazards; undefined types are refused.',
     ['inputs', 'histories'], 'all types with arbitrary field values, one decoder receiving many, directly and '
     'through the SLAS decoder; reception times around the turn of month and year and on every day of the week',
     'no test decodes these messages',
     [S+'ewss.py', S+'dgps.py'],
     [('DC report', S+'ewss.py jmaDec'), ('CAMF', S+'ewss.py camfDec'), ('transport', S+'dgps.py decode_mt43, decode_mt44')],
     'stateful round-trip testing with an independent encoder of the bit layouts',
     'Field values for which the code tables have entries; code tables are generated (the real ones are '
     'in cssrlib-data); reports at most two days old, events at most twelve days before.')
prop('C25', 'Sun, moon, Earth rotation, tides and wind-up follow their definitions',
     'At every epoch the Earth rotation angle and the positions of sun and moon in the '
     'Earth-fixed frame agree with an independent ephemeris; the solid Earth tide at every site '
     'follows from them and agrees with the IERS model; the phase wind-up equals the angle '
     'between the antenna dipoles of satellite and receiver and is continuous over complete turns; '
     'the relativistic range delay equals its closed form.',
     ['inputs', 'histories'], 'epochs from 1999 to 2030, sites anywhere, satellites of all altitudes, orbit '
     'arcs for the continuity of the wind-up',
     'the tests print one value of each without comparing it',
     [S+'ppp.py', S+'peph.py'],
     [('sun and moon', S+'ppp.py, peph.py sunmoonpos, eci2ecef, utc2gmst'),
      ('tide', S+'ppp.py solid_tide, tidedisp, tidedispIERS2010'), ('wind-up', S+'ppp.py shapiro, windupcorr')],
     'property-based testing against independent ephemerides and closed forms',
     'Sun within 0.02 degrees, moon within 0.45 degrees (truncated series), tide within 5E-5 m for given sun '
     'and moon and 6 mm from the truncated series.')
prop('C26', 'Relative positioning (RTK) recovers position and ambiguities',
     'For any base and rover tracking at least six common usable satellites above the elevation mask '
     'the filter gives, in every epoch, the rover position: float within its stated uncertainty and, '
     'once noise permits, with the ambiguities fixed to the right integers (millimetres without '
     'noise), for every constellation and number of signals, with troposphere and ionosphere '
     'estimated or not. Cycle slips (flagged or visible in the geometry-free combination) '
     'and gaps at either station, weak or missing signals, and satellites that are unhealthy, '
     'excluded or without ephemeris at either station do no harm; with fewer satellites there is no '
     'solution, and the base position given by the user stays as it is.',
     ['histories', 'inputs'], 'simulated pairs of receivers with random geometry, clocks, satellite clock errors, '
     'ambiguities, motion and event histories',
     'the only RTK test needs a companion data set and looks at one final position',
     [S+'rtk.py', S+'pppssr.py', S+'mlambda.py'],
     [('engine', S+'pppssr.py pppos.process, udstate, zdres, sdres, kfupdate, resamb_lambda, holdamb'),
      ('editing', S+'pppssr.py qcedit; rtk.py base_process')],
     'stateful property-based testing against an independent observation simulator',
     'Baselines below 9 km; geometries with dilution up to 6 (12 for float); ionosphere estimated only with two '
     'or more signals; slips of less than 0.2 m in the geometry-free combination are not generated; '
     'after epochs without usable geometry a moving rover is not judged further.')
prop('C27', 'Precise point positioning with broadcast, SSR and precise products',
     'A single receiver whose observations obey the stated models (satellite position, clock and '
     'relativity, troposphere, ionosphere, solid tide, wind-up, relativistic delay, antenna offsets '
     'and variations of satellite and receiver, code and phase biases) is positioned without a '
     'bias, in each epoch, from broadcast ephemerides alone, from the orbit, clock and bias '
     'corrections of every SSR service under its own sign and reference conventions, or from '
     'precise orbits, clocks and biases; with integer ambiguities the position is exact to millimetres. '
     'Satellites that are excluded, unhealthy, or lack an ephemeris, a correction, a bias or an '
     'antenna are left out; slips, gaps and weak signals do no harm; with too few satellites no '
     'solution is claimed.',
     ['histories', 'inputs'], 'simulated receivers, constellations, services (CLAS, MADOCA, HAS SIS and IDD, '
     'IGS and RTCM SSR, BDS PPP, PVS), correction values, antennas, tides, motion and event histories',
     'the tests need companion data sets, two services are run, and only some final position is looked at',
     [S+'pppssr.py', S+'ephemeris.py', S+'peph.py', S+'ppp.py'],
     [('engine', S+'pppssr.py zdres, find_bias, udstate, sdres, qcedit, process'),
      ('corrections', S+'ephemeris.py satposs'), ('antennas and precise products', S+'peph.py antModelTx, antModelRx, peph2pos')],
     'stateful property-based testing against an independent observation simulator',
     'Observations free of noise; priors and weights chosen so that they dominate; GLONASS (FDMA ambiguities are not integer) '
     'only within centimetres; geometries with dilution up to 8; orbits of the precise products are those of the '
     'broadcast model; nav.time_p is set by the user.')
prop('C28', 'PPP-RTK: from Compact SSR messages with network corrections to a position',
     'A receiver inside a network served by Compact SSR (CLAS) messages, whose observations agree with '
     'the transmitted orbit, clock, code and phase bias (global and of the network), tropospheric and slant ionospheric '
     'corrections interpolated to its place, is positioned to millimetres with fixed ambiguities from '
     'the first epoch on, for every combination of the message types carrying them, across updates of single '
     'corrections, changes of the mask, and several networks. Satellites excluded, unhealthy, without the '
     'matching ephemeris, outside the mask or the network, or with unavailable corrections '
     'are left out; an epoch without tropospheric corrections does no lasting harm.',
     ['histories', 'inputs'], 'message histories (all sub types, masks, networks and grids), constellations, motion, slips and gaps',
     'the only test that runs it needs a companion data set, one service and one place',
     [S+'ppprtk.py', S+'pppssr.py', S+'cssrlib.py', S+'ephemeris.py'],
     [('messages', S+'cssrlib.py decode_cssr'), ('interpolation', S+'cssrlib.py find_grid_index, get_trop, get_stec'),
      ('engine', S+'pppssr.py zdres, find_bias, process; ppprtk.py')],
     'stateful property-based testing: message encoder and observation simulator against the decoder and filter',
     'Noise-free observations; the interpolation is that of the four nearest grid points (a single one within '
     '5 km); longitudes within 170 degrees; satellites with both STEC polynomials and residuals of the same message set.')
prop('C29', 'Raw navigation messages become the ephemerides that were transmitted',
     'Pages of the navigation messages of all constellations (GPS/QZSS LNAV, CNAV, CNAV-2, Galileo I/NAV and F/NAV, '
     'BeiDou D1, D2, B-CNAV1/2/3, NavIC L5 and L1, GLONASS FDMA and CDMA, SBAS message 9), handed over as received, '
     'satellites interleaved, pages lost, issues changing, yield for each complete set an ephemeris whose '
     'parameters, issue numbers, health and times (reference times of the nearest week, all in GPS time) are exactly those transmitted, '
     'and never a mixture of two issues; unrelated pages, wrong preambles or satellites yield nothing and disturb nothing; '
     'written to RINEX and read back, the ephemeris is the same. The signal table of '
     'a receiver lists for every selected constellation consistent signals of that constellation.',
     ['histories', 'inputs'], 'parameter values over the full bit ranges, times around week and day ends, page histories',
     'the tests contain no raw navigation message',
     [S+'rawnav.py', S+'rinex.py'],
     [('decoders', S+'rawnav.py RawNav.decode_*'), ('output', S+'rinex.py rnx_nav_body, rnx_gnav_body, rnx_snav_body'),
      ('signals', S+'rawnav.py rcvDec.init_sig_tab')],
     'stateful property-based testing against an independent message encoder',
     'Issues differ in their issue number or reference time; parameters without issue number (I/NAV word 5, B-CNAV2 message 40) are '
     'kept constant; mixing of GLONASS CDMA strings and the L1OC string 12 layout are not judged; dates from 2017.')
prop('C30', 'Integrity messages carry their parameters to the right satellites and signals',
     'Every RTCM SC-134 integrity message (minimum and extended integrity, signal-in-space and local error, primary and extended service '
     'area, quality indicator, carrier-to-noise and AGC monitoring, visibility and multipath maps, integrity of SSR corrections) is '
     'decoded into exactly the parameters that were broadcast: each constellation, satellite, frequency and area point gets its own '
     'values, whatever masks, numbers of points and optional fields the message has, in any sequence of messages; '
     'satellites flagged do-not-use by SSR integrity are those excluded, and the log reports for each parameter the value of its table.',
     ['histories', 'inputs'], 'masks, field values over their full ranges, numbers of points, message sequences',
     'no test decodes an integrity message',
     [S+'rtcm.py'],
     [('decoders', S+'rtcm.py decode_integrity_*'), ('log', S+'rtcm.py out_log, Integrity tables')],
     'stateful property-based testing against an independent message encoder',
     'Message numbers 2000 to 2091 and sub-messages 9 and 10 of message 54; MT2000 with at least one constellation; '
     'reserved frequencies, fault sources and area types are not generated; the draft numbers 3 to 13 and the encoder of '
     'messages 11 to 13, whose layout differs, are not judged.')
