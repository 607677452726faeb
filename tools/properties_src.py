"""Source of properties.jsonl and MANIFEST.json (run tools/mkmanifest.py after editing)."""
P = []


def prop(id, title, statement, text, why, files, mech, over=('inputs',), observe=()):
    P.append({'id': id, 'title': title, 'statement': statement,
              'quantifier': {'over': list(over), 'text': text}, 'why_tests_cant': why,
              'anchors': {'files': ['src/%s.cc' % f for f in files.split()],
                          'mechanism': [{'name': n, 'where': w} for n, w in mech],
                          'observe_at': list(observe) or ['return value and output arguments of: ' + ', '.join(files.split())],
                          'hook_needed': None}})


SAMPLED = 'The tests call each routine with one or two fixed arguments and compare digits; '

prop('C01', '3-vector and 3x3-matrix algebra is exact and safe to use in place',
     'Matrix*matrix, matrix*vector, transposed-matrix*vector, scalar product, vector product and normalisation compute exactly the linear-algebra definitions for all operands, in both precisions. The result is the same when the output argument is the same object as any input argument. Normalising the null vector yields modulus zero and a null vector, never a division by zero.',
     'all vectors and matrices, every permitted input/output aliasing', SAMPLED + 'no test aliases arguments, uses generic matrices or degenerate vectors.',
     'mxm mxv imxv vdv vxv vn dmxm dmxv dimxv dvdv dvxv dvn',
     [('intermediate buffers before the output is written', 'src/dmxm.cc'), ('zero-modulus guard', 'src/dvn.cc')])
prop('C02', 'Spherical and Cartesian directions convert into each other exactly',
     'Converting longitude/latitude to a vector gives a unit vector in that direction; converting any non-null vector to spherical coordinates gives the longitude in (-pi,pi] and latitude in [-pi/2,pi/2] of that direction, so that vector -> angles -> vector reproduces the normalised vector. At the poles the longitude is reported as zero and for the null vector both angles are zero, with no invalid arithmetic.',
     'all angle pairs and all vectors including poles and the null vector', SAMPLED + 'poles, null vector and all quadrants are not covered.',
     'cs2c cc2s dcs2c dcc2s', [('atan2 with pole guards', 'src/dcc2s.cc')])
prop('C03', 'Position+velocity conversions carry rates as exact time derivatives',
     'Converting spherical position and rates to a Cartesian six-vector (and back) yields velocities that are the exact time derivatives of the converted position, and the two conversions are mutually inverse away from the poles. At the pole the angular rates are zero; a null position takes its direction from the velocity, so no input causes invalid arithmetic.',
     'all positions and rates, including pole and null position', SAMPLED + 'derivative consistency and degenerate positions are never sampled.',
     'cs2c6 cc62s ds2c6 dc62s', [('partial derivatives', 'src/ds2c6.cc'), ('null-position fallback', 'src/dc62s.cc')])
prop('C04', 'Euler rotation matrices are the ordered product of axis rotations',
     'For every axis-order string (X/Y/Z, x/y/z or 1/2/3 in any mix) the Euler routines return the product of the elementary frame rotations applied in string order with the corresponding angles, which is always a proper rotation. The string ends at its terminator, at the first unrecognised character or after three rotations; an empty order gives the identity.',
     'all angles and all order strings', SAMPLED + 'only a handful of the possible axis orders, none with fewer than three valid axes, are sampled.',
     'euler deuler', [('axis switch and matrix accumulation', 'src/deuler.cc')])
prop('C05', 'Axial vectors and rotation matrices are faithful to each other',
     'The matrix built from an axial vector is the rotation about that axis by its length: proper orthogonal, leaves the axis fixed, trace 1+2cos(angle), identity for the null vector. The inverse routine returns axis times angle for every rotation matrix with angle in [0,pi), and the null vector for the identity.',
     'all axial vectors and all rotation matrices', SAMPLED + 'one vector and one matrix are tested; null rotation and large angles are not.',
     'av2m m2av dav2m dm2av', [('Rodrigues formula, zero-angle branch', 'src/dav2m.cc'), ('antisymmetric part and trace', 'src/dm2av.cc')])
prop('C06', 'Angle normalisation stays in range and changes only whole turns',
     'Reducing any finite angle gives a value in -pi..+pi (signed reduction) or 0..2pi (unsigned reduction) that differs from the argument by an integer number of full turns. Angles already inside the interval are returned unchanged.',
     'all finite angles of either sign and size', SAMPLED + 'interval boundaries and large negative multiples are not covered.',
     'range drange ranorm dranrm', [('fmod followed by conditional correction', 'src/drange.cc')])
prop('C07', 'Days/radians to sexagesimal: rounding carries, fields stay in range',
     'Converting days or radians to hours/degrees, minutes, seconds and fraction rounds once at the requested number of decimals and carries, so that minutes and seconds are always 0..59, the fraction is below one second, and the recombined fields equal the argument to half a unit of the last digit. The sign flag is negative exactly for negative arguments; a negative number of decimals is treated as zero.',
     'all angles/times in the documented range and all decimal counts 0..9', SAMPLED + 'the carry cases (59.9995 s) and the various decimal counts are sampled at one or two points only.',
     'cd2tf dd2tf cr2af dr2af cr2tf dr2tf', [('single rounding, then nested integer remainders', 'src/dd2tf.cc')])
prop('C08', 'Sexagesimal to radians/days: exact value with faithful range status',
     'Converting hours/degrees, minutes, seconds to days or radians always returns the exact linear combination of the fields, whether or not a field is out of range. The status identifies the out-of-range field (hours 0-23 or degrees 0-359, minutes 0-59, seconds 0-59.999...) and reports success exactly when every field is in range.',
     'all integer fields and all seconds values', SAMPLED + 'each status is sampled at most once and boundary values are not.',
     'caf2r daf2r ctf2d dtf2d ctf2r dtf2r', [('field range checks', 'src/dtf2d.cc')])
prop('C09', 'Gregorian calendar and Modified Julian Date are exact inverses',
     'A calendar date converts to the number of days since 1858 November 17 by the Gregorian rules, and a Modified Julian Date converts back to the unique calendar date containing it together with a day fraction in [0,1), so that the round trip is the identity for every day. Bad years, months and days of month (including 29 February of non-leap years) are diagnosed with their own status; two-digit years are mapped to 1950-2049 only by the routines that promise it. The decimal variant rounds the fraction to the requested places and carries into the date.',
     'all years from -4699 up, all months and days, all MJDs in the accepted range', SAMPLED + 'a few dates out of about 10^6 days; century rules, boundaries and large dates are unsampled.',
     'cldj caldj djcl djcal slalib', [('month/leap-year table check', 'src/slalib.cc'), ('integer calendar arithmetic', 'src/djcl.cc')])
prop('C10', 'Calendar date to day-in-year is exact',
     'A valid Gregorian date yields its year and day-in-year number 1..366, equal to one plus the MJD difference from 1 January of that year (expressed on the Julian-calendar-aligned scale the routine documents). Bad years, months and days get their own status; the calendar-defaulting variant maps two-digit years to 1950-2049 first.',
     'all years from -4711 up and all months and days', SAMPLED + 'a handful of dates are checked.',
     'clyd calyd slalib', [('integer calendar arithmetic', 'src/clyd.cc'), ('year defaulting', 'src/slalib.cc')])
prop('C11', 'Besselian and Julian epochs convert consistently in all directions',
     'Julian epoch and Besselian epoch are the documented linear functions of MJD and their inverses undo them exactly. Epoch conversion returns the input unchanged when both codes name the same kind of epoch, and otherwise the conversion through MJD, for upper and lower case codes alike.',
     'all epochs and all combinations of epoch codes', SAMPLED + 'only a few letter-case combinations of the codes are exercised.',
     'epj epj2d epb epb2d epco', [('linear scale constants', 'src/epb.cc'), ('code dispatch', 'src/epco.cc')])
prop('C12', 'Time-scale offsets TAI-UTC, TT-UTC and TT-UT follow their tables',
     'TAI-UTC is the announced step function of UTC from 1972 on (each step effective exactly at its date) and the documented linear drift segments before, and TT-UTC is that plus 32.184 s for every date. The TT-UT estimate is the documented piecewise polynomial of the Julian epoch with its three eras selected at the documented boundaries.',
     'all dates, in particular both sides of every table boundary', SAMPLED + 'four dates are checked; a wrong entry or boundary elsewhere goes unnoticed.',
     'dat dtt dt', [('chain of date thresholds', 'src/dat.cc'), ('piecewise polynomial', 'src/dt.cc')])
prop('C13', 'Greenwich sidereal time and equation of the equinoxes',
     'Greenwich mean sidereal time is the IAU 1982 function of UT1 reduced to 0..2pi, identically the same instant whether the date is supplied whole or split into date and fraction in any order. The equation of the equinoxes is the documented nutation-based function of TDB.',
     'all dates and all ways of splitting them', SAMPLED + 'one date each is checked.',
     'gmst gmsta eqeqx', [('polynomial plus normalisation', 'src/gmst.cc'), ('split-date magnitude ordering', 'src/gmsta.cc')])
prop('C14', 'Equatorial and horizon coordinates are exact inverse rotations',
     'Hour angle/declination to azimuth/elevation and back are the rotation through the latitude: azimuth in 0..2pi north through east, hour angle in -pi..pi, and applying both returns the original direction in either precision. Zenith distance is the exact angular distance to the zenith and parallactic angle is zero-safe at the pole and zenith.',
     'all hour angles, declinations and latitudes including zenith and poles', SAMPLED + 'one point per routine; zenith, pole and quadrant boundaries are not covered.',
     'e2h de2h h2e dh2e zd pa', [('rotation and atan2', 'src/de2h.cc'), ('degenerate-denominator guard', 'src/pa.cc')])
prop('C15', 'Altazimuth mount velocities and accelerations are true derivatives',
     'For every hour angle, declination and latitude the altazimuth routine returns azimuth, elevation and parallactic angle together with rates that are their exact first and second derivatives with respect to hour angle. Close to the zenith and the pole the rates stay finite through the documented minimum-distance guard.',
     'all hour angles, declinations and latitudes', SAMPLED + 'one pointing is checked; derivative consistency and guards are not.',
     'altaz', [('analytic derivatives with zenith guard', 'src/altaz.cc')])
prop('C16', 'Hour angle from azimuth or parallactic angle: all solutions, no false ones',
     'Given an azimuth (or a parallactic angle) and a declination the routines return the hour angles at which the star has that azimuth (or parallactic angle), with a validity flag per solution. A solution flagged valid satisfies the defining equation and existing solutions are flagged valid; pole and degenerate cases report no solution instead of invalid arithmetic.',
     'all latitudes, declinations and azimuths/parallactic angles', SAMPLED + 'one case with two solutions is tested; flags are never exercised.',
     'pda2h pdq2h', [('solvability tests and flags', 'src/pda2h.cc')])
prop('C17', 'Angular separation, bearing and position angle are accurate everywhere',
     'Separation between two directions (spherical or vector form, either precision) is the true angle in 0..pi for all pairs including coincident and antipodal ones and vectors of any non-zero length. Bearing and vector position angle agree with each other, lie in -pi..pi, are zero for coincident directions, and point along the great circle from the first to the second direction.',
     'all pairs of directions and vectors', SAMPLED + 'one pair each; coincident, antipodal and polar pairs are not covered.',
     'sep sepv dsep dsepv bear dbear pav dpav', [('vector-product atan2 form', 'src/dsepv.cc'), ('zero guards', 'src/dpav.cc')])
prop('C18', 'Tangent-plane projection and deprojection are exact inverses',
     'Gnomonic projection of a star about a tangent point, in spherical or direction-cosine form, gives the exact standard coordinates, and deprojection recovers the star for every point in front of the plane. The status distinguishes acceptable stars, stars too far from the axis, and the two kinds of antistars, and coordinates are finite in every case.',
     'all stars and tangent points including the poles', SAMPLED + 'one star per routine; statuses other than OK and pole tangent points are not sampled.',
     's2tp ds2tp tp2s dtp2s v2tp dv2tp tp2v dtp2v', [('denominator classification', 'src/ds2tp.cc'), ('pole guard', 'src/dtp2v.cc')])
prop('C19', 'Plate-centre recovery returns exactly the valid tangent points',
     'From a star and its tangent-plane coordinates the routines return the tangent points that project the star to those coordinates, with the number of solutions 0, 1 or 2. Every returned solution reprojects exactly, and the useful solution comes first.',
     'all stars and plate coordinates', SAMPLED + 'one case each with one solution count.',
     'tps2c dtps2c tpv2c dtpv2c', [('quadratic root selection and count', 'src/dtps2c.cc')])
prop('C20', 'Galactic, supergalactic and equatorial conversions are mutual inverses',
     'Conversions between J2000 equatorial, galactic and supergalactic coordinates are fixed proper rotations, results normalised to longitude 0..2pi and latitude -pi/2..pi/2, and each pair of opposite conversions composes to the identity. The B1950 variants include E-term removal/addition and are likewise inverse to one another.',
     'all directions', SAMPLED + 'one direction per routine.',
     'eqgal galeq galsup supgal eg50 ge50', [('rotation matrices', 'src/eqgal.cc')])
prop('C21', 'E-terms of aberration: same vector everywhere, add and remove cancel',
     'The E-term vector is the documented function of the Besselian epoch. Adding E-terms to a direction and removing them are inverse to first order, both use that vector for the given equinox, and both return normalised right ascension 0..2pi.',
     'all epochs and directions', SAMPLED + 'one epoch and direction each.',
     'etrms addet subet', [('shared E-term vector', 'src/etrms.cc')])
prop('C22', 'Ecliptic conversions are inverse rotations through obliquity and precession',
     'The ecliptic matrix is the rotation by the mean obliquity of date. Equatorial-to-ecliptic and ecliptic-to-equatorial conversions combine it with precession from J2000 and are exact inverses with normalised ranges, for every date and direction.',
     'all dates and directions', SAMPLED + 'one date and direction each.',
     'ecmat eqecl ecleq', [('rotation by mean obliquity', 'src/ecmat.cc')])
prop('C23', 'Precession matrices are rotations with the documented angles',
     'The precession matrices between two epochs are proper rotations built from the documented polynomial angles for their model (Bessel-Newcomb, IAU 1976, Simon 1994). Precessing coordinates applies the matrix of the named system, normalises right ascension to 0..2pi, and signals an unknown system name without touching the result contract.',
     'all epoch pairs, directions and system names', SAMPLED + 'one epoch pair each.',
     'prec precl prebn preces', [('angle polynomials and Euler matrix', 'src/prec.cc'), ('system dispatch', 'src/preces.cc')])
prop('C24', 'Nutation series and matrices match the published theories at every date',
     'Nutation components and obliquity are exactly the published series (SF2001 and IAU 1980) as functions of date: every term contributes its amplitude, argument multiples and rates. The nutation matrix is the rotation through true and mean obliquity and nutation in longitude, and the precession-nutation matrix is their product.',
     'all dates', SAMPLED + 'a single date cannot separate the contributions of ~300 terms nor their time dependence.',
     'nutc nutc80 nut prenut', [('series tables and accumulation loops', 'src/nutc.cc')])
prop('C25', 'Earth heliocentric/barycentric position and velocity are consistent',
     'The Earth position and velocity vectors (heliocentric and barycentric) are the published series at every date, and each velocity is the exact time derivative of the corresponding position per day. No term, frequency or phase is lost for any date.',
     'all dates', SAMPLED + 'one date; an error in a small term or only in the velocity loop passes within tolerance or elsewhere.',
     'epv', [('series tables and accumulation loops', 'src/epv.cc')])
prop('C26', 'Low-precision Earth ephemerides and light-time corrections',
     'The approximate Earth position/velocity routines (barycentric/heliocentric with optional precession to an equinox, and the year/day variant) compute the documented analytic theory at every date, and radial-velocity and light-time corrections are the projections of that velocity and position on the star direction.',
     'all dates, equinoxes and directions', SAMPLED + 'one date each.',
     'evp earth ecor', [('analytic theory', 'src/evp.cc'), ('projection', 'src/ecor.cc')])
prop('C27', 'Moon position series, with velocity the derivative of position',
     'The Moon routines evaluate the documented series for longitude, latitude and parallax at every date, and return geocentric rectangular coordinates. The velocity of the high-precision routine is the exact time derivative of the series position, and the low-precision routine returns the documented series rates.',
     'all dates', SAMPLED + 'one or two dates.',
     'moon dmoon', [('series tables and accumulation loops', 'src/dmoon.cc')])
prop('C28', 'Observer geometry: geocentric position, velocity and polar motion',
     'Geocentric distances from axis and equator follow the reference ellipsoid for every latitude and height; the observer position/velocity vector is that position rotated by sidereal time with velocity exactly the Earth-rotation rate times the position derivative. Polar motion correction gives the true latitude, longitude and azimuth difference and is the identity for zero pole offset.',
     'all latitudes, heights, times and pole offsets', SAMPLED + 'one site each.',
     'geoc pvobs polmo', [('ellipsoid formula', 'src/geoc.cc'), ('rotation rate', 'src/pvobs.cc')])
prop('C29', 'Radial-velocity corrections are projections of fixed motions',
     'Each velocity correction (Earth rotation, galactic rotation, Local Group, dynamical and kinematical LSR) is the projection of its documented velocity vector on the given direction, so it is bounded by that speed, odd under direction reversal, and periodic in the angles.',
     'all directions, latitudes and sidereal times', SAMPLED + 'one direction each.',
     'rverot rvgalc rvlg rvlsrd rvlsrk', [('constant solar-motion vectors', 'src/rvlsrk.cc')])
prop('C30', 'Proper motion propagates the star along a straight space motion',
     'Applying proper motion moves the star by epoch difference along its Cartesian space velocity (including radial velocity and parallax terms) and returns right ascension in 0..2pi. Zero epoch difference returns the same direction for all catalogue values.',
     'all directions, motions, parallaxes, velocities and epochs', SAMPLED + 'one star.',
     'pm', [('space-motion vector', 'src/pm.cc')])
prop('C31', 'Refraction: model constants, applied corrections and air mass',
     'Refraction constants, the applied refraction of zenith distance and vectors, atmospheric dispersion scaling and air mass are the documented functions of their arguments for every zenith distance, with the documented clamping and low-elevation switches, and never produce invalid arithmetic over the accepted ranges. The full refraction integral agrees with an independent integration of the same atmosphere model for sources above the horizon and, in ordinary conditions, a little below it, and is constant below 93 degrees.',
     'all zenith distances, meteorological parameters, wavelengths and sites', SAMPLED + 'clamps, switch points (93 deg, 83 deg, 100 micron) and both observing bands are sampled once at most.',
     'refcoq refco refz refv refro atmdsp airmas', [('argument clamping and switch points', 'src/refz.cc')])
prop('C32', 'Matrix inversion and linear solution with honest singularity flag',
     'For a square system the routines return the inverse matrix, the determinant and the solution vector; inverse times original is the identity and the solution satisfies the equations. A matrix whose elimination meets a vanishing pivot (for example one with an empty row or column) is flagged singular with zero determinant, a regular one is never flagged, and only the n by n elements given are touched.',
     'all matrices and orders', SAMPLED + 'one 3x3 system is tested.',
     'dmat smat', [('pivoting Gauss-Jordan', 'src/dmat.cc')])
prop('C33', 'Singular value decomposition, solution and covariance',
     'The decomposition reproduces the matrix as U*diag(w)*V^T with orthonormal columns and non-negative singular values; back-substitution ignores zero singular values and otherwise gives the least-squares solution, and the covariance matrix is V diag(1/w^2) V^T over non-zero singular values; a matrix with fewer rows than columns is refused with status -1.',
     'all matrices, sizes and strides', SAMPLED + 'one matrix is tested.',
     'svd svdsol svdcov', [('zero singular value guards', 'src/svdsol.cc')])
prop('C34', 'Plate-model fitting, application, inversion and decomposition agree',
     'The fitted 4- or 6-coefficient model minimises the squared residuals over all samples, the applied model is the affine map of the coefficients, predicted positions and RMS residuals are those of that map, and the inverse model composed with it is the identity. Decomposition into offsets, scales, non-perpendicularity and orientation recombines to the same coefficients; degenerate inputs are reported by status.',
     'all sample sets and coefficients', SAMPLED + 'one sample set; degenerate sets, two-sample exact fits and negative scales are not covered.',
     'fitxy pxy xy2xy invf dcmpf', [('normal equations', 'src/fitxy.cc'), ('determinant guard', 'src/invf.cc')])
prop('C35', 'Pincushion/barrel distortion applies and removes consistently',
     'Applying distortion multiplies each coordinate by one plus the coefficient times the squared radius, for every coefficient. Removing it returns the real cubic root that undoes the application for either sign of the coefficient.',
     'all coordinates and coefficients', SAMPLED + 'one positive coefficient.',
     'pcd unpcd', [('cubic solution by case', 'src/unpcd.cc')])
prop('C36', 'Combination and permutation generators enumerate everything once',
     'Starting from the initial state, successive calls of the combination generator return every k-subset of n exactly once in the documented order, and the permutation generator returns every permutation of n exactly once, after which the end status is reported. Invalid arguments are reported without producing a result.',
     'all n, k and all call histories from initialisation to exhaustion', SAMPLED + 'small sequences only.',
     'combn permut', [('state carried in the caller array', 'src/permut.cc')], over=('inputs', 'histories'))
prop('C37', 'Observatory lookup by number and by name is consistent',
     'Every observatory is reachable by its number and by its (upper-case) identifier with identical name, longitude, latitude and height, and the enumeration is gap-free; a partial identifier finds the first observatory whose identifier starts with it. Unknown identifiers and out-of-range numbers are reported as not found, with "?" names and zero coordinates.',
     'all observatory numbers and name strings', SAMPLED + 'a few of the ~85 stations are looked up.',
     'obs', [('station table and search loop', 'src/obs.cc')])
prop('C38', 'TDB-TT clock correction is the published series at every date and site',
     'The relativistic clock correction is the published Fairhead-Bretagnon series plus topocentric terms for every date, UT fraction and observer location; each term contributes its amplitude, frequency and phase with the right power of time. The result has no hidden dependence on earlier calls.',
     'all dates, fractions and sites', SAMPLED + 'a few dates; small terms are below the tolerance.',
     'rcc', [('series table and accumulation loops', 'src/rcc.cc')])
prop('C39', 'Every routine is a pure function of its arguments',
     'No library routine (other than the random-number pair and the sleep routine) reads or writes hidden mutable state: repeated calls with equal arguments give equal results whatever calls happened in between, and only the documented output arguments are written.',
     'all call histories and all arguments', 'Tests run each routine once in a fixed order, so memory carried between calls or stray writes are invisible.',
     'slalib', [('absence of writable statics and stray stores', 'src/*.cc')], over=('inputs', 'histories'))
prop('C40', 'Random deviates are fresh draws, the seed acts once; version reports agree',
     'The uniform generator returns, for every seed and every history of calls, the next draw of one engine, at least zero and below one; only the first call of a process uses its seed (the sign of the seed is ignored, different seeds give different sequences). The normal generator returns both deviates of successive Box-Muller pairs formed from two fresh draws inside the unit circle, each once and multiplied by the standard deviation of the call that returns it. The printable version is the numeric version in the form M.N-R.',
     'all seeds, standard deviations and call histories', 'Tests check a few values against wide limits; a reused deviate, a reseeding, a scale kept from an earlier call or a distorted distribution stays inside them.',
     'random gresid vers veri', [('engine and flags kept in statics', 'src/random.cc'), ('kept partner deviate and rejection loop', 'src/gresid.cc')], over=('inputs', 'histories'))
