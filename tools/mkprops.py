#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the property catalogue) from the table below."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=observe or [])))
IO, NAV, GR, UT = 'shipgrav/io.py', 'shipgrav/nav.py', 'shipgrav/grav.py', 'shipgrav/utils.py'

# ---------------------------------------------------------------- navigation
p('N01', 'Navigation fixes decode to signed decimal degrees',
  'For every supported ship format, each position sentence of the chosen talker in a navigation file is read as '
  'longitude and latitude equal to degrees plus minutes/60, negative in the southern and western hemispheres, for every digit string. '
  'Lines of other talkers contribute nothing, and a sentence whose coordinate fields are empty gives NaN for both coordinates, never a stale or zero position.',
  ['inputs'], 'all digit values of the ddmm.mmm / dddmm.mmm fields, both hemispheres, empty fields, every supported ship, any interleaving of foreign lines',
  'The tests compare one longitude of the first row of six sample files, with a one-sided inequality that almost any value passes; latitude is never checked, nor S or E hemispheres.',
  [IO], [('_navcoords', IO), ('read_nav', IO)], ['read_nav(...).lon / .lat'])
p('N02', 'Navigation times are the UTC instant of each fix',
  'For every supported ship format, the time of each row returned by the navigation reader is the UTC instant that the file gives for that fix: the date from the logger prefix (or preceding dated line) and the clock from the sentence, or the logger/posix stamp where the format uses that one; the day is the one nearest to the logger\'s clock when fix and logger are on different sides of midnight. '
  'The stamps are timezone-aware UTC and do not depend on the time zone of the machine. '
  'Fractions of a second are kept for any number of digits to within a microsecond (the Thompson reader keeps whole seconds only), and the datetime stamp column and the posix column denote the same instant.',
  ['inputs'], 'all dates, clock digits and fraction lengths (0 to 9 digits) in each ship format; logger clocks up to 3 hours off; every fixed offset of the local time zone; 1 to 3 fixes',
  'The tests check the first time stamp of one sample per ship; all have at most two or three particular fraction digits.',
  [IO], [('_clock_time and _navdate_* per ship', IO), ('read_nav', IO)], ['read_nav(...).time_sec / .stamps'])
p('N03', 'Navigation series is ordered, unique, and keeps each fix with its position',
  'For any set of navigation files, in any order and with any repeated or out-of-order times, the returned series has strictly increasing times, every returned time is the time of some fix in the files, and its longitude and latitude are those of the first fix that has this time. '
  'With decimation k, exactly every k-th fix of each file (starting with its first) is eligible; without decimation no distinct time is lost.',
  ['inputs', 'histories'], 'all time orders/ties between fixes, up to 3 fixes per file and 2 files (4 for a single file), one set of 12 files of 15 fixes, all coordinate values, decimation 0 to 3',
  'Every test reads one file that is already sorted and unique and looks at row 0 only.',
  [IO], [('read_nav: unique/interp/append', IO)], ['read_nav(...)'])
p('N04', 'Tracks crossing the date line stay continuous and correct modulo 360',
  'When a track of positions (each less than one degree of longitude from the next) crosses the 180 degree meridian, the navigation reader returns longitudes that equal the positions in the file modulo 360 degrees and that never jump by more than one degree between consecutive rows. '
  'Fixes without a position (NaN) stay so and do not hide a crossing beside them. A track that does not cross the meridian is returned unchanged, also when the data have gaps after which the ship is more than a degree of longitude away (on either side of Greenwich); '
  'only isolated fixes that jump out by more than a degree and straight back are smoothed, each to the mean of its two neighbours. A track over the meridian is given in the longitudes of the side that has more fixes.',
  ['inputs'], 'all tracks of 2 to 4 fixes within one degree of each other, east- or westward, any number of crossings; tracks of 2 to 5 fixes with 1 to 4 gaps; tracks of 3 to 6 fixes with 1 or 2 spikes; tracks with 1 to 3 fixes without a position; tracks of 120 and 190 fixes over up to 180 degrees',
  'No test file crosses the date line, so this code is never executed by the tests.',
  [IO], [('_clean_180cross', IO), ('read_nav', IO)], ['read_nav(...).lon'])
p('N05', 'Navigation requests that cannot be served return -999; overrides are honoured',
  'Asking for navigation of an unknown ship without a read function or without a talker, of an unknown talker for that ship, or of a talker that no line of the file contains returns the sentinel -999 and raises no exception. '
  'A talker argument overrides the database talker, the database talker is used otherwise, and a user-supplied read function is called with each file\'s lines and the talker and its result is used for any ship name.',
  ['inputs', 'configurations'], 'every ship in the database plus unknown ones, with/without talker and read function, files with and without the talker',
  'The tests try one unknown ship name.',
  [IO, 'shipgrav/database.toml'], [('read_nav', IO)], ['read_nav(...)'])
# ---------------------------------------------------------------- gravimeters
p('R01', 'BGM serial files read as counts times the meter scale factor',
  'For every BGM serial record of each supported ship the returned row holds the integer counts written after the colon, gravity equal to counts times the scale factor (the caller\'s if given, else that ship\'s database value), and the UTC time written in the record (timezone-aware). '
  'Rows keep file and line order with nothing lost or duplicated, over any list of files.',
  ['inputs'], 'all digit values of counts, dates, times, scale factors; 1 to 2 files of 1 to 3 records and one set of 11 files of 5; 4 ships and user-supplied reader',
  'Tests compare row 0 of one sample file per ship; scale override, file lists and later rows are not tested.',
  [IO, 'shipgrav/database.toml'], [('read_bgm_raw, _bgmserial_*', IO)], ['read_bgm_raw(...)'])
p('R02', 'RGS files read with time, gravity and position in the right columns',
  'For every RGS record the returned row has the (timezone-aware) UTC time, the gravity value and the latitude and longitude of that record, for any values of those fields. '
  'Rows keep file and line order over any list of files, and unsupported ships return -999.',
  ['inputs'], 'all values of all fields; 1 to 2 files of 1 to 3 records and one set of 11 files of 5; supported and unsupported ships',
  'The test checks time and gravity of the first record of one file; latitude/longitude are not checked.',
  [IO], [('read_bgm_rgs', IO)], ['read_bgm_rgs(...)'])
p('R03', 'DGS laptop files read with every channel in its own column',
  'For each supported ship, every well-formed DGS laptop record is returned as one row whose gravity, long and cross accelerations, status, the four monitors (ve, vcc, al, ax), latitude and longitude (those the format provides) equal the values at their documented positions in the record, and whose time is the record\'s UTC time (timezone-aware). '
  'A channel that is empty in a record (as the position without GPS) is NaN there and the rest of the record is kept. Records keep file and line order, over any list of files, and nothing is lost, duplicated or taken from header lines.',
  ['inputs'], 'all values of all fields; 1 to 2 files of 1 to 3 records and one set of 11 files of 5; 8 ship names (4 layouts)',
  'Tests check time and ve (and a one-sided comparison on gravity) of the first record; other columns are never checked.',
  [IO], [('read_dgs_laptop, _dgs_laptop_*', IO)], ['read_dgs_laptop(...)'])
p('R04', 'Damaged Langseth laptop lines are dropped and nothing else is',
  'In a Langseth DGS laptop file, exactly the lines that have 26 comma-separated fields after the optional logger prefix are returned, in order and with unshifted columns; all other lines (too few or too many fields, truncated prefix, line noise) are skipped without an exception; bytes that are no text are left out. '
  'A file with no valid line gives an empty table with the usual columns.',
  ['inputs'], 'all sequences of up to 3 lines drawn from valid/prefixed/unprefixed/short/long/truncated forms, empty fields at either end, all field values',
  'The sample file has only valid lines in the part that is checked.',
  [IO], [('_dgs_laptop_Langseth', IO)], ['read_dgs_laptop(..., "Langseth")'])
p('R05', 'DGS serial channels in their columns, monitors scaled by 1e-5',
  'For every DGS serial record the returned columns hold the values at their documented positions in the record; the four cross-coupling monitors ve, vcc, al and ax are multiplied by exactly 1e-5 when scaling is requested (the default) and returned as written otherwise, and no other column is scaled. '
  'A channel that is empty in a record (as the position without GPS) is NaN there and the rest of the record is kept. This holds for each ship format, and rows keep file and line order over any list of files.',
  ['inputs'], 'all values of all fields; 1 to 2 files of 1 to 3 records and one set of 11 files of 5; Thompson, Sikuliaq and general layouts; scaling on and off',
  'Tests check gravity and (one-sided) vcc of the first record.',
  [IO], [('read_dgs_raw, _dgs_raw_*', IO)], ['read_dgs_raw(...)'])
p('R06', 'DGS serial time stamps are the UTC instants in the records',
  'For every DGS serial record with a usable time, the returned time is that UTC instant (timezone-aware): the trailing yyyymmddHHMMSS stamp when the meter clock is synchronised, the ISO time before the meter identifier when it is not, the logger date and time for Thompson and Sikuliaq. '
  'A record set without any usable time is still returned, without times and without an exception.',
  ['inputs'], 'all valid date/time digits in each layout; synchronised and unsynchronised clocks with and without an ISO prefix',
  'Tests check the first record of one file per layout; the synchronised-clock layout and the no-time case are never exercised.',
  [IO], [('_dgs_raw_general, _dgs_raw_Thompson, _dgs_raw_Sikuliaq', IO)], ['read_dgs_raw(...).date_time'])
p('R07', 'Gravimeter readers: unsupported ships give -999, user readers are honoured',
  'Reading BGM serial or DGS laptop data for a ship that is not supported, without a user-supplied reader, returns -999 and raises no exception. '
  'A user-supplied reader is called once per file in order and its rows are what is returned (with gravity computed for BGM), whatever the ship name; a single path behaves as a one-element list.',
  ['inputs', 'configurations'], 'all ship names of the database and unknown ones, 1 to 3 and 12 files, string vs list paths, all values returned by the user reader',
  'Tests try one unknown ship per reader; user readers are never tested.',
  [IO], [('read_bgm_raw, read_dgs_laptop', IO)], ['read_bgm_raw(...), read_dgs_laptop(...)'])
p('R08', 'Feed reader returns every sentence of the feed with aligned columns',
  'For any data file, the feed reader returns one row for every line that carries the requested sentence tag, in order, including the first and last lines of the file, and none for other lines. '
  'Each named column holds the field at the position that the YAML format gives it, also when fields (even the first) are empty; text before the tag is kept in the extra column, and giving the tag with or without $ makes no difference. A tag that the YAML does not describe, or that is nowhere in the data file, is refused with an exception.',
  ['inputs'], 'files of 1 to 3 lines, each tagged or foreign, all field characters, empty fields at any position, with/without trailing newline',
  'The test reads one file that ends with a foreign line and compares three values of row 0.',
  [IO], [('read_other_stuff', IO)], ['read_other_stuff(...)'])
# ---------------------------------------------------------------- kinematics
p('K01', 'Positions convert to north/east velocity on the WGS84 ellipsoid',
  'For any position series and sampling frequency, the north (east) velocity at every sample at least five from either end equals the meridian (prime-vertical times cos latitude) radius of curvature of the WGS84 ellipsoid at that latitude, times the tenth-order Taylor derivative of latitude (longitude) in radians, times the frequency. '
  'The output has the input\'s length, exactly the first and last five samples are NaN, north is returned first, and inputs that differ in length or have fewer than 11 samples are refused.',
  ['inputs'], 'all latitude/longitude values and frequencies; series of 11 to 40 samples (one longer length)',
  'The tests use one meridional line and one-sided comparisons with the outputs swapped.',
  [NAV], [('latlon_to_EN', NAV)], ['latlon_to_EN(...)'])
p('K02', 'Course and speed are the polar form of the velocity',
  'For every east/north velocity, speed is the Euclidean norm and heading is in degrees clockwise from north, in (-180, 180], such that speed*sin(heading) is the east and speed*cos(heading) the north component. '
  'The result for a sample depends on that sample only.',
  ['inputs'], 'all velocity components, arrays of 1 to 4 samples',
  'Tests check one northward sample with one-sided comparisons.',
  [NAV], [('ENvel_to_course_heading', NAV)], ['ENvel_to_course_heading(...)'])
p('K03', 'Cross/long rotation is an isometry aligned with the heading',
  'For every heading and horizontal acceleration, the cross and long components are the projections on the starboard (heading + 90 degrees) and forward directions; the magnitude is preserved and headings that differ by 360 degrees give the same result. '
  'A vector along the track rotates to zero cross component and its full magnitude along the long axis.',
  ['inputs'], 'all headings and acceleration components, arrays of 1 to 4 samples',
  'Tests check a single heading.',
  [NAV], [('rotate_acceleration_EN_to_cl', NAV)], ['rotate_acceleration_EN_to_cl(...)'])
# ---------------------------------------------------------------- corrections
p('C01', 'Theoretical gravity is WGS84 normal gravity at every latitude',
  'For every latitude, theoretical gravity equals the closed-form WGS84 normal gravity on the ellipsoid (978032.53359 mGal at the equator, 983218.49 mGal at the poles) within 0.01 mGal. '
  'It is the same north and south of the equator and grows monotonically from equator to pole.',
  ['inputs'], 'all latitudes in [-90, 90], arrays of 1 to 4 samples',
  'No test checks a value of this function.',
  [GR], [('wgs_grav', GR)], ['wgs_grav(lat)'])
p('C02', 'Second-order free-air correction follows its documented polynomial',
  'For every latitude and height, the free-air correction is -(0.3087691 - 0.0004398 sin^2 lat) h + 7.2125e-8 h^2 mGal, and with the free-water option the leading coefficient is 0.22242 instead. '
  'It is zero at height zero, negative above and positive below sea level for |h| up to 10 km, and each sample depends on its own latitude and height only.',
  ['inputs'], 'all latitudes, heights in [-10 km, 10 km], both options, arrays of 1 to 3 samples',
  'The test evaluates it at height zero only, where every formula gives zero.',
  [GR], [('free_air_second_order', GR)], ['free_air_second_order(lat, ht)'])
p('C03', 'Eotvos correction equals Harlan\'s full expression',
  'For any track (latitude, longitude, height series) and sampling rate, the Eotvos correction at each interior sample is the vertical part of the platform acceleration in the rotating frame, less Earth\'s centrifugal part, as given by Harlan (1968) with central differences scaled by the sampling rate, on the given ellipsoid. '
  'The output has the input\'s length and the two end samples repeat their neighbours.',
  ['inputs'], 'all latitude, longitude and height values, sampling rates and ellipsoid axes; tracks of 3 to 8 samples (one longer length)',
  'The test compares one sample of one track with a one-sided inequality that almost any value passes.',
  [GR], [('eotvos_full, center_diff', GR)], ['eotvos_full(...)'])
p('C04', 'Eotvos correction has the right physics: rest, sign and symmetries',
  'A platform at rest at any position and height has zero Eotvos correction; steady eastward motion gives a positive one equal to the centripetal difference ((W+w)^2 - W^2) times the axis distance resolved on the vertical, and steady westward motion slower than twice Earth\'s rotation a negative one. '
  'The correction is unchanged when all longitudes are shifted by a constant or when the track is mirrored in the equator.',
  ['inputs'], 'all positions, heights, speeds and sampling rates; tracks of 3 to 6 samples',
  'A property over all positions and motions; the test evaluates one sample of one track.',
  [GR], [('eotvos_full', GR)], ['eotvos_full(...)'])
p('C05', 'Tide prediction equals Longman\'s (1959) formulas',
  'For every position, altitude and UTC time the predicted lunar and solar tidal gravity equal Longman\'s closed-form expressions with his constants and Love factor (milligals, up positive when the body is overhead), and the returned total is their sum. '
  'Asking for components does not change the total, each sample depends only on its own position and time, and inputs of unequal length are refused.',
  ['inputs'], 'all longitudes, latitudes, altitudes and times between 1900 and 2100; arrays of 1 to 3 samples',
  'The test compares one sample with a one-sided inequality that almost any value passes.',
  [GR], [('longman_tide_prediction', GR)], ['longman_tide_prediction(...)'])
p('C06', 'Tide depends only on the instant and on the physical position',
  'Two aware time stamps that denote the same instant give the same tide whatever their time zone, and longitudes that differ by 360 degrees give the same tide. '
  'Advancing the time by a given number of seconds is the same whether or not it crosses midnight, a month or a year end.',
  ['inputs'], 'all instants 1900 to 2100 at second resolution, all zone offsets within +/-14 h, all positions',
  'The test uses one UTC time stamp per sample of a single hour of data.',
  [GR], [('_convert_datetime_tidetime, longman_tide_prediction', GR)], ['longman_tide_prediction(...)'])
p('C07', 'Central differences are exact and scale with the sampling rate',
  'For any series and sampling rate the first (second) central difference returns, for each interior sample, the symmetric two-point (three-point) difference times rate (rate squared), so it is exact on every quadratic; the output has two samples fewer than the input. '
  'Any other order returns -999.',
  ['inputs'], 'all sample values and rates; series of 3 to 12 samples; orders -1 to 4',
  'Not tested directly.',
  [GR], [('center_diff', GR)], ['center_diff(...)'])
# ---------------------------------------------------------------- platform tilt, cross coupling
p('T01', 'Platform up vectors are unit vectors given by the filtered tilts',
  'For any accelerations, gravity, flags and filter settings, the platform up vectors form one unit vector per sample with positive vertical part; their components are the rotations of vertical by the arctangent of the filtered cross and long tilt ratios, the two rotations being applied in alternating order on even and odd samples. '
  'With zero accelerations every vector is exactly vertical.',
  ['inputs'], 'all acceleration, gravity, period and damping values; series of 1 to 6 samples',
  'The test checks two components of sample 0, which are 0 and 1 for any filter because the series starts with zeros.',
  [GR], [('up_vecs, _calc_up_vecs, _tilt_filter', GR)], ['up_vecs(...)'])
p('T02', 'Platform tilt follows the documented second-order filter per axis',
  'The tilt ratio of each axis is the response, from rest, of the bilinear-transformed platform filter with that axis\'s period and damping (Schuler frequency sqrt(9.8/6371100), frequencies pre-warped at the sampling interval) to that axis\'s acceleration divided by gravity. '
  'Samples depend on present and past data of the same axis only, and zero damping selects sqrt(2)/2.',
  ['inputs'], 'all acceleration and gravity values, periods, dampings and sampling intervals; series of 1 to 6 samples',
  'Filter coefficients and outputs are never compared with anything by the tests.',
  [GR], [('_tilt_filter, up_vecs', GR)], ['up_vecs(...)'])
p('T03', 'Missing and flagged samples drive no platform tilt',
  'A sample whose acceleration is NaN, whose flag marks it as bad, or whose gravity is NaN acts as zero driving acceleration on that axis: the up vectors are finite and equal those for the same data with that acceleration set to zero. '
  'Unflagged finite samples are used as given.',
  ['inputs'], 'every pattern of NaN/flagged samples over series of up to 4 samples, scalar and per-sample flags, all values',
  'The test has NaN only in the first and last samples and passes a zero flag.',
  [GR], [('up_vecs', GR)], ['up_vecs(...)'])
p('X01', 'Cross-coupling fit recovers the coefficients of a coupled anomaly',
  'If the free-air anomaly is a linear combination of the five monitors with any coefficients (plus any constant and linear trend), the fit returns exactly the negatives of these coefficients under the right monitor names, and the returned table holds the doubly differenced, filtered and trimmed series of each monitor and of minus the anomaly. '
  'The result does not depend on adding a constant or linear trend to any input.',
  ['inputs'], 'all coefficient, offset and trend values, over fixed independent monitor series of 1000 to 1400 samples',
  'The test compares two coefficients of one record with one-sided inequalities.',
  [GR], [('calc_cross_coupling_coefficients', GR)], ['calc_cross_coupling_coefficients(...)'])
p('X02', 'Cross-coupling fit uses every long continuous section and no data across gaps',
  'When times are given, the data are split exactly at steps longer than five sampling intervals; every section of at least 1000 samples contributes, including the first, the last and the one between gaps, shorter ones contribute nothing. '
  'No derivative or filter output mixes samples from both sides of a gap, so an arbitrary offset of one section relative to another changes nothing.',
  ['inputs'], 'all gap sizes, coefficient values and per-section offsets; up to 3 sections (10 with fixed sizes) of lengths around and above 1000',
  'No test passes times.',
  [GR], [('calc_cross_coupling_coefficients', GR)], ['calc_cross_coupling_coefficients(..., times=...)'])
# ---------------------------------------------------------------- gravity of interfaces
p('M01', 'Line gravity of topography is Parker\'s series with true wavenumbers',
  'For every equally spaced profile (even or odd number of points), level and density contrast, the anomaly is the fifth-order Parker series of the profile extended by its end values to five times its length, with wavenumbers 2 pi |m|/(N dx) and upward continuation from the mean topography level, in mGal. '
  'Hence flat topography gives zero, the result scales linearly with density, and reversing the profile, or listing its points in the opposite direction, reverses the anomaly.',
  ['inputs'], 'all topography values, spacings, levels and densities; profiles of 2 to 6 points',
  'One profile of 10 points is evaluated with a one-sided comparison of one sample.',
  [GR], [('grav1d_padded', GR)], ['grav1d_padded(...)'])
p('M02', 'Gridded gravity of an interface is Parker\'s series, folded or not',
  'For every grid (even or odd, square or not), spacing, density contrast, offset depth and series order, the anomaly is the Parker series to that order of the interface (depth positive) about its mean, with true two-dimensional wavenumbers and upward continuation over mean depth plus offset, mirrored in both directions when folding is on and periodic otherwise, in mGal. '
  'Hence a flat interface gives zero, and flipping or transposing the grid flips or transposes the anomaly.',
  ['inputs'], 'all interface values, spacings, densities and offsets; grids from 1x1 to 3x3 (larger ones up to 45x70 and 2x200 with few symbols), folding on and off, orders 1 to 6',
  'One 5x5 grid with folding is evaluated with a one-sided comparison of one sample.',
  [GR], [('grav2d_folding', GR)], ['grav2d_folding(...)'])
p('M03', 'Layer gravity is the Fourier transfer of its density distribution',
  'For every density grid, spacings and depths of top and bottom, the anomaly is the inverse transform of the density transform times 2 pi G (exp(-k z1) - exp(-k z2))/k with true wavenumbers k, the mean density contributing nothing, in mGal. '
  'Hence it is linear in density, zero for uniform density or zero thickness, and flipping the grid flips the anomaly.',
  ['inputs'], 'all density values, spacings and depths; grids from 1x2 to 4x4 and 5x5',
  'One 5x5 grid is evaluated with a one-sided comparison of one sample.',
  [GR], [('grav2d_layer_variable_density, _kvalue', GR)], ['grav2d_layer_variable_density(...)'])
p('M04', 'Crustal thickness is the tapered downward continuation of the residual anomaly',
  'For every residual anomaly (line or grid), the thickness variation is minus the anomaly about its mean, downward continued by exp(k z) with true wavenumbers, divided by 2 pi G times the density contrast, passed fully below the long-wavelength limit, cosine-tapered between the limits and removed beyond the short one, in km, in the order of the input. '
  'It is linear in the anomaly, unaffected by a constant, and a cutoff pair in the wrong order is refused.',
  ['inputs'], 'all anomaly values, depths and densities; lines of 2 to 8 points and grids from 2x2 to 3x3, cutoffs placing wavelengths in each of the three bands',
  'One random line is evaluated: a one-sided comparison of one sample, and equality of one sample with and without back-calculation.',
  [GR], [('crustal_thickness_2D', GR)], ['crustal_thickness_2D(...)'])
p('M05', 'Back-calculated gravity is the input anomaly limited to passed wavelengths',
  'When back-calculation is requested, the recovered gravity equals the input anomaly with its wavelengths weighted by the same taper (mean kept), independent of continuation depth and density contrast, in the order of the input, and the thickness is the same as without the request. '
  'With all wavelengths passed, the recovered gravity is the input.',
  ['inputs'], 'all anomaly values, depths and densities; lines of 2 to 8 points and grids from 2x2 to 3x3',
  'The recovered gravity is never checked by the tests.',
  [GR], [('crustal_thickness_2D(back=True)', GR)], ['crustal_thickness_2D(..., back=True)'])
# ---------------------------------------------------------------- thermal
p('H01', 'Half-space temperature and subsidence follow the cooling solution',
  'For every distance or age, depth and parameter set, the half-space temperature is Tm erf(z / (2 sqrt(k t))) and subsidence is 2 rho_m a Tm/(rho_m - rho_w) sqrt(k t/pi), with t the age, or |distance| divided by spreading rate. '
  'So temperature lies between 0 and Tm, grows with depth, falls with age, is 0 at the seafloor, and both sides of the axis are equal.',
  ['inputs'], 'all positive ages/nonzero distances, depths and material parameters; grids up to 2 x 3',
  'One point is evaluated with one-sided comparisons.',
  [GR], [('therm_halfspace', GR)], ['therm_halfspace(...)'])
p('H02', 'Half-space isotherm depth inverts half-space temperature',
  'For every age or distance and temperature strictly between 0 and Tm, the half-space isotherm depth is the depth at which the half-space temperature equals that temperature, and its subsidence equals the temperature routine\'s subsidence. '
  'It grows with the square root of age, is zero for temperature zero, and increases with temperature.',
  ['inputs'], 'all positive ages/nonzero distances, temperatures and material parameters; arrays up to 3',
  'One point is evaluated with one-sided comparisons.',
  [GR], [('therm_Z_halfspace', GR)], ['therm_Z_halfspace(...)'])
p('H03', 'Plate temperature and subsidence follow the plate cooling series',
  'For every distance or age, depth and parameter set, the plate temperature is Tm [z/L + sum over n=1..10 of 2/(n pi) exp(-n^2 pi^2 k t/L^2) sin(n pi z/L)] within the plate and Tm below it, and subsidence is rho_m a Tm L/(rho_m - rho_w) [1/2 - 4/pi^2 sum over n=1,3,5 of exp(-n^2 pi^2 k t/L^2)/n^2]. '
  'So temperature is 0 at the seafloor and Tm at the plate base, and both sides of the axis are equal.',
  ['inputs'], 'all positive ages/distances, depths above, at and below the plate base, and material parameters; grids up to 2 x 3',
  'One point is evaluated with one-sided comparisons.',
  [GR], [('therm_plate', GR)], ['therm_plate(...)'])
p('H04', 'Plate isotherm depth is the nearest depth of the search grid',
  'For every requested temperature and every distance or age, the plate isotherm depth is a depth of the search grid (from the minimum, by the spacing, below the maximum) at which the plate temperature is closest to the requested one. '
  'Rows follow the requested temperatures and columns the positions, and all plate parameters given are used.',
  ['inputs'], 'all temperatures, ages/distances and material parameters; up to 2 temperatures x 2 positions, grids of up to 4 depths',
  'One temperature at one position with default parameters is evaluated.',
  [GR], [('therm_Z_plate', GR)], ['therm_Z_plate(...)'])
# ---------------------------------------------------------------- utilities
p('U01', 'Gaussian filter is a causal unit-gain weighted mean with Gaussian weights',
  'For any series and filter length, each output sample is the same weighted sum of the present and the preceding samples (zeros before the start), with 2*floor(length/2)+1 symmetric, non-negative weights that add up to one and fall off as a Gaussian of standard deviation length/6 samples about the centre. '
  'The output has the input\'s length, the filter is linear, and a series that is not longer than the filter length is refused.',
  ['inputs'], 'all sample values; filter lengths 2 to 16 (and one longer) with series a few samples longer',
  'One impulse with one length is evaluated with a one-sided comparison of one sample.',
  [UT], [('gaussian_filter, _gaussian_coeffs', UT)], ['gaussian_filter(...)'])
p('U02', 'Status words decode to their sixteen named bits',
  'For every 16-bit status word the decoder gives each of the sixteen documented flags, from most to least significant, the character of its bit, so the word can be rebuilt from the flags. '
  'Decoding a table gives, row by row, the same flags as decoding each value on its own, inserted as columns, with the other columns and the row order unchanged; other input types are refused.',
  ['inputs'], 'all status words 0..65535; tables of 1 to 3 rows, any key column',
  'One word and four flags are tested; the table form is not.',
  [UT], [('decode_dgs_status_bits', UT)], ['decode_dgs_status_bits(...)'])
p('U03', 'Meter ini files are rewritten as TOML with every setting preserved',
  'For a meter ini file of sections, comments, blank lines and key = value lines, the rewritten file (same path with the extension toml) has the same lines in order: numbers keep their value and are written as TOML numbers (also 007, .5 and 5.), quoted strings keep their value, TRUE/FALSE become booleans, any other value becomes a quoted string of the same text (trimmed, comment removed, backslashes and quotes escaped, also when it contains an equals sign), and // comments become # comments (tabs become blanks, and a talker key loses its leading $). '
  'The input file is not modified and a line without an equals sign is kept and raises no exception.',
  ['inputs'], 'all characters of keys and values (bounded length) in each line kind, with and without comments, files of up to 3 lines',
  'This function has no test.',
  [UT], [('clean_ini_to_toml', UT)], ['output file'])
p('U04', 'Segment picker selects the nearest sample and undoes picks in order',
  'After any sequence of left and right clicks on the interactive cursor, the picked indices, longitudes and latitudes are three lists of equal length that correspond to the samples nearest in time to the left clicks that have not been undone, in click order. '
  'A right click removes the latest pick, and does nothing when there is none; moving the mouse never changes the picks.',
  ['inputs', 'histories'], 'all click positions and time series of up to 3 samples, all sequences of up to 4 clicks/moves, and one session of over 40 events on a series of 240 samples',
  'This class has no test.',
  [UT], [('_SnappingCursor', UT)], ['x_seg, y_seg, i_seg'])
p('U05', 'Cross hair and map marker show the sample nearest to the mouse',
  'Whenever the mouse has moved over the plot with the cursor, the cross hair is visible and stands at the time and value of the sample that is nearest in time (the one that a click there would pick), and the marker on the map is at the longitude and latitude of the same sample. '
  'When the mouse leaves the plot the cross hair is hidden. The points marked on the map are always the current picks, in order.',
  ['inputs', 'histories'], 'all mouse positions and time series of up to 3 samples, all sequences of up to 3 moves, exits and clicks, and one session of over 40 events on a series of 240 samples',
  'This class has no test.',
  [UT], [('_SnappingCursor', UT)], ['cross hair lines, marker and marks (stand-ins of the drawing objects)'])
p('P01', 'Computations do not modify their inputs and do not depend on call history',
  'The velocity, course, rotation, Eotvos, free-air, theoretical-gravity, tide, central-difference, cross-coupling, filter, interface-gravity, crustal-thickness and thermal-model computations leave every input array unchanged, for all values. '
  'Calling one of them again with the same inputs, after calls with any other inputs, returns the same result, and results returned earlier do not change. The same holds for the platform tilt, except that it cleans the acceleration arrays it is given in place (NaN and flagged samples become zero).',
  ['inputs', 'histories'], 'all input values (small arrays, and three samples of series of up to 1030), sequences of two calls with independent arguments (also with another value of one setting) followed by a repetition of the first, compared with the same call in a new session',
  'Each test calls a function once or with one input.',
  [GR, NAV, UT], [('all computation entry points', GR)], ['arguments and results'])
p('P02', 'Columns of a table give the same numbers as arrays, row by row',
  'The velocity, course, rotation, Eotvos, free-air, theoretical-gravity, tide, central-difference, platform-tilt, cross-coupling, filter, line-gravity, crustal-thickness and thermal-model computations return the same numbers in the same order when some or all of their vector arguments are pandas columns instead of arrays, '
  'whatever the row labels of the columns are (counted from 0, with gaps after rows were dropped, or unsorted; the columns of one call share their labels). A result that is a column has the row labels of its inputs.',
  ['inputs', 'configurations'], 'all input values (small arrays, and three samples of series of up to 1030), three kinds of row labels, all vector arguments or any one of them as columns',
  'The readers return tables, but the tests pass arrays, or columns whose labels start at 0.',
  [GR, NAV, UT], [('all computation entry points with array_like arguments', GR)], ['results'])

p('P03', 'Whole numbers, lists and tuples give the same numbers as equal arrays',
  'The velocity, course, rotation, Eotvos, free-air, theoretical-gravity, tide, central-difference, platform-tilt, filter, line- and grid-gravity, layer-gravity, crustal-thickness and thermal-model computations return the same values for arrays of whole numbers (integer arrays) as for floating-point arrays of the same values: nothing is truncated or rounded. '
  'The computations whose arguments are documented as array_like (free-air, theoretical gravity, Eotvos, tide positions and altitudes, central difference, platform tilt, filter, line gravity, crustal thickness and thermal models) return the same values for lists and tuples of those numbers, for all vector arguments or for any one of them.',
  ['inputs', 'configurations'], 'all input values (small arrays and one long filter input), integer arrays, lists, tuples and lists of integers, for all vector arguments or any one of them',
  'The tests pass floating-point arrays of one kind at a time.',
  [GR, NAV, UT], [('all computation entry points with array arguments', GR)], ['results'])
p('P04', 'A missing sample spoils only the results that use it',
  'A NaN in one sample of an input leaves all results that do not depend on that sample exactly as they would be without it: course, rotation, theoretical gravity, free-air, tide and the isotherms lose only the result of that row, the thermal grids only that column, central differences and the Eotvos correction at most the adjacent samples (and the edge values copied from them), '
  'velocities at most the 5 samples on either side, and the filter only the outputs whose window contains it. The results that do depend on it (for the pointwise computations, central difference and filter) are NaN, not a number made up from the rest.',
  ['inputs', 'faults'], 'all values of the other samples; a missing sample in any one input at any position of short series, and in the middle of series of up to 1030 samples',
  'Real records have dropouts at arbitrary places; the tests use complete records.',
  [GR, NAV, UT], [('all pointwise and windowed computations', GR)], ['results'])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, 'properties.jsonl'), 'w') as f:
    for q in P:
        assert len(q['title']) <= 80, q['title']
        f.write(json.dumps(q) + '\n')
print(len(P))
