#!/usr/bin/env python3
"""Regenerates properties.jsonl (kept as a script so that statements, anchors and reasons are edited in one place)."""
import json
import os

S = lambda names: ['src/%s.cc' % n for n in names.split()]
P = []


def prop(id, title, statement, over, qtext, why, files, mech):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])))


prop('C01', 'Results depend only on the arguments',
     'Every library routine except the random-number, Gaussian-residual and wait routines is a pure function: equal '
     'arguments give equal return values, outputs and status whatever was called before, in whatever order. No such '
     'routine reads or writes mutable state that outlives the call, or consults the clock, environment, locale, files '
     'or standard streams. One-time initialisation of a constant table is allowed only if its contents do not depend on '
     'any argument.',
     ['histories', 'inputs'], 'all call histories and all arguments of all ~150 routines',
     'A test calls each routine a couple of times in one fixed order; hidden state shows only for particular histories.',
     ['src/slalib.h', 'src/obs.cc', 'src/random.cc', 'src/gresid.cc', 'src/wait.cc', 'src/slalib.cc'],
     [('no mutable namespace-scope or function-static data outside random/gresid', 'src/*.cc'),
      ('guarded one-time table of observatories', 'src/obs.cc')])
prop('C02', 'Thread-safe build leaves no shared mutable state',
     'When the library is configured for multi-threaded use, every piece of mutable state that persists between calls is '
     'thread-local, so concurrent calls from different threads never race and never influence one another. State that is '
     'initialised once and never written again is initialised under the language\'s thread-safe static initialisation.',
     ['schedules', 'configurations'], 'all interleavings of all routines in the SLALIB_THREAD_SAFE=1 configuration',
     'The tests are single-threaded and are built only in the other configuration.',
     ['src/slalib.h', 'src/random.cc', 'src/gresid.cc', 'src/obs.cc'],
     [('SLALIB_THREAD_LOCAL on generator state', 'src/random.cc, src/gresid.cc')])
prop('C03', 'Inputs are read-only and writes stay inside declared outputs',
     'A routine never modifies the objects it receives as inputs (constant references, pointers and arrays), and writes '
     'only to the outputs its interface declares, within the declared extent (3-vectors, 3x3 matrices, 6-component '
     'records, n-element arrays). When input and output are distinct objects, inputs compare equal before and after.',
     ['inputs'], 'all argument values and all caller-provided objects',
     'Tests never look at inputs after a call nor at memory next to outputs.',
     ['src/slalib.h'], [('const parameters, local temporaries', 'src/*.cc')])
prop('C04', 'Outputs are fully assigned on success and untouched on documented failure',
     'On every returning path a routine either assigns every component of each of its outputs a value derived from its '
     'inputs, or - only where nothing is returned (invalid year or month, Julian date out of range, singular model, no '
     'tangent-point solution, no hour-angle solution, insufficient samples) - leaves those outputs exactly as the '
     'caller passed them. No output depends on what the output object held before the call, and none is left partly '
     'written on one path and fully on another (the calendar routines set only the fraction field of their own kind; a '
     'failed observatory look-up returns the documented placeholder record).',
     ['inputs'], 'all inputs, including those selecting rare branches and error returns',
     'Tests exercise one branch of most routines and pre-existing output contents are never varied.',
     ['src/slalib.h'] + S('cldj caldj clyd calyd djcl djcal invf tps2c dtps2c tpv2c dtpv2c fitxy pda2h pdq2h obs'),
     [('early return before the first output is written', 'src/cldj.cc, src/djcl.cc, src/invf.cc')])
prop('C05', 'Output may alias input for vector, matrix and coordinate transforms',
     'Matrix x matrix, matrix x vector, inverse matrix x vector and cross product, and the other transforms between '
     'like objects (vector normalisation, refraction of a vector, tangent plane to star, galactic, supergalactic, '
     'ecliptic and FK4-galactic conversions, E-term addition and removal, proper motion, plate-model inversion, '
     'Cartesian-to-spherical position/velocity) give the same results when the output object is the very object passed '
     'as input as when it is distinct.',
     ['inputs'], 'all argument values and all supported input/output aliasings',
     'Tests use distinct objects almost everywhere.',
     S('mxm dmxm mxv dmxv imxv dimxv vxv dvxv vn dvn refv tp2v dtp2v eqgal galeq eqecl ecleq galsup supgal eg50 ge50 '
       'addet subet pm cc62s preces invf'),
     [('results accumulated in a local before being copied out', 'src/dmxm.cc, src/dmxv.cc, src/dvxv.cc')])
prop('C06', 'No out-of-bounds or uninitialised memory access',
     'For every argument value inside the documented domain, a routine reads only initialised memory and only elements '
     "inside its own constant tables and inside the caller's objects; no index derived from an argument can leave its "
     'table, and no decision or output is taken from an uninitialised variable. No integer is divided by zero on any '
     'path, and no floating-point value outside the range of the integer type is converted to it.',
     ['inputs'], 'all in-domain inputs, including extreme months, series indices and observatory numbers',
     'An out-of-bounds or uninitialised read usually goes unnoticed by a value comparison at a sample point.',
     ['src/slalib.cc', 'src/obs.cc', 'src/dat.cc', 'src/rcc.cc', 'src/epv.cc', 'src/evp.cc', 'src/nutc.cc',
      'src/nutc80.cc', 'src/moon.cc', 'src/dmoon.cc', 'src/deuler.cc', 'src/combn.cc', 'src/permut.cc'],
     [('range validation before table lookup', 'src/cldj.cc, src/obs.cc'), ('loop bounds equal table sizes', 'src/epv.cc')])
prop('C07', 'Every call terminates',
     'Every routine returns for every input: each loop is controlled by a counter that moves monotonically toward a limit '
     'that the loop body does not change, or has an explicit iteration cap, and there is no recursion. The only exceptions '
     'are rejection sampling in the Gaussian-residual routine and the operating-system sleep in the wait routine.',
     ['inputs'], 'all inputs of all routines',
     'A test can only show that a sampled call returned.',
     ['src/refro.cc', 'src/svd.cc', 'src/dd2tf.cc', 'src/combn.cc', 'src/permut.cc', 'src/fitxy.cc', 'src/refz.cc'],
     [('counted loops, strip-count cap in the refraction integral, iteration cap in the SVD', 'src/refro.cc, src/svd.cc')])
prop('C08', 'Double-precision routines never pass data through single precision',
     'In a routine whose interface is double precision (except the approximate Earth position/velocity model, which '
     'documents single-precision internals), no value on the way from its arguments to its results is rounded to '
     'single precision and no constant or table entry it uses is a single-precision rounding of a decimal. Hence '
     'results carry double precision for every argument magnitude.',
     ['inputs'], 'all arguments of all double-precision routines',
     'A lost digit shows only for arguments with enough significant bits; sample points are often round numbers.',
     ['src/slalib.h'], [('double intermediates throughout', 'src/d*.cc and the double-only routines')])
prop('C09', 'Single- and double-precision siblings compute the same function',
     'Wherever the library offers the same routine in single and double precision (matrix, vector, spherical, tangent '
     'plane, angle and time conversion, bearing, separation, horizon and range routines), the two agree on status, on '
     'branch selection and on every output for all inputs, up to single-precision rounding.',
     ['inputs'], 'all inputs of the 35 sibling pairs, including poles, zero vectors and range boundaries',
     'Each sibling is tested at its own sample point only; nothing compares them elsewhere.',
     S('av2m dav2m cc2s dcc2s cs2c dcs2c euler deuler imxv dimxv m2av dm2av mxm dmxm mxv dmxv vdv dvdv vn dvn vxv dvxv '
       'bear dbear pav dpav e2h de2h h2e dh2e caf2r daf2r ctf2d dtf2d ctf2r dtf2r cd2tf dd2tf cr2af dr2af cr2tf dr2tf '
       'range drange ranorm dranrm sepv dsepv sep dsep cc62s dc62s cs2c6 ds2c6 s2tp ds2tp tp2s dtp2s tps2c dtps2c tp2v '
       'dtp2v v2tp dv2tp tpv2c dtpv2c smat dmat'),
     [('parallel implementations or delegation', 'src/<x>.cc and src/d<x>.cc')])
prop('C10', 'Sexagesimal to angle/day conversion is exact and range-checked',
     'Degrees, arcminutes, arcseconds convert to radians as (60(60d+m)+s) arcseconds and hours, minutes, seconds convert '
     'to days or radians as (60(60h+m)+s)/86400 turns, and the result is assigned even when a field is out of range. The '
     'status is OK exactly when d is in 0..359 (h in 0..23), m in 0..59 and 0 <= s < 60; otherwise it names an '
     'out-of-range field, degrees before arcminutes before arcseconds for angles and seconds before minutes before hours '
     'for times.',
     ['inputs'], 'all integer fields and real seconds, including negative and boundary values',
     'Tests try one valid triple; statuses are never provoked at the boundaries.',
     S('caf2r daf2r ctf2d dtf2d ctf2r dtf2r') + ['src/slalib.h'],
     [('cascaded range tests', 'src/daf2r.cc, src/dtf2d.cc')])
prop('C11', 'Angle/day to sexagesimal decomposition is a normalised rounding',
     'Converting days (or radians) to hours/degrees, minutes, seconds and an ndp-digit fraction yields the correctly '
     'rounded value in units of 10^-ndp seconds: hours*3600+minutes*60+seconds plus fraction reproduces the rounded '
     'magnitude, with minutes and seconds in 0..59 and fraction below 10^ndp, rounding carried through all fields. The '
     'sign is reported separately, minus exactly for negative input, and a negative ndp is treated as zero.',
     ['inputs'], 'all angles and all supported precisions, including values that round up to a whole minute or hour',
     'Tests decompose one value per routine; carry and sign boundaries are not sampled.',
     S('cd2tf dd2tf cr2af dr2af cr2tf dr2tf'),
     [('round once in the smallest unit, then split by truncation', 'src/dd2tf.cc')])
prop('C12', 'Gregorian dates convert to MJD and year/day with exact validation',
     'Calendar-to-MJD conversion and day validation implement the proleptic Gregorian calendar (leap years: divisible by 4 '
     'and not by 100 unless by 400) for every supported year; calendar-to-year/day conversion returns the date in the Julian '
     'calendar aligned with the Gregorian one between 1900 March 1 and 2100 February 28. A year before the documented limit or a month '
     'outside 1..12 is reported, in that order, and yields no output; a day outside the month is reported but the result '
     'is still returned; the "default century" variants map years 0-49 to 2000-2049 and 50-99 to 1950-1999 and leave all '
     'other years alone.',
     ['inputs'], 'all years, months and days accepted by the interface',
     'Tests check a handful of dates; leap-century rules and limits of the validity range are not covered exhaustively.',
     S('cldj caldj clyd calyd slalib'), [('validate_gregorian_day, process_year_defaults', 'src/slalib.cc')])
prop('C13', 'MJD to Gregorian date conversion inverts the calendar',
     'For every accepted Julian date the returned year, month, day and fraction are those of the proleptic Gregorian '
     'calendar, with the fraction in [0,1), and the rounded variant rounds to the requested number of decimal places '
     'before splitting, so that a carry moves to the next day. Dates outside the accepted range are rejected and leave '
     'the output unchanged.',
     ['inputs'], 'all Julian dates in the accepted range and all decimal place counts',
     'Tests check one date per routine.',
     S('djcl djcal'), [('integer calendar arithmetic on the rounded day number', 'src/djcl.cc, src/djcal.cc')])
prop('C14', 'Normalised angles lie in their documented range and differ by whole turns',
     'The range-normalisation routines return an angle congruent to their argument modulo one turn, within [-pi, pi] '
     'for the signed and [0, 2pi] for the unsigned variant, for every finite argument. Routines that return a right '
     'ascension, ecliptic or galactic longitude, azimuth or sidereal time in 0-2pi, an hour angle, bearing or position '
     'angle in +-pi, a latitude, declination or elevation in +-pi/2, or a separation or zenith distance in [0, pi] do '
     'so for every input.',
     ['inputs'], 'all finite inputs including exact multiples of pi',
     'Range guarantees fail at isolated arguments or quadrants that sample points miss.',
     S('range drange ranorm dranrm gmst gmsta e2h de2h altaz eqgal galeq eqecl ecleq galsup supgal eg50 ge50 preces pm '
       'addet subet tp2s dtp2s sep dsep sepv dsepv bear dbear pav dpav pa zd'),
     [('fmod reduction and a final conditional turn', 'src/drange.cc, src/dranrm.cc')])
prop('C15', 'Leap-second table, TT offset and Delta T are exact step/piecewise functions',
     'TAI-UTC returned for a UTC date equals the official IERS value: the pre-1972 rates and offsets before 1972 and the '
     'whole-second steps afterwards, each taking effect exactly at 0h UTC of its date, monotone from 1972 on and constant '
     'after the last entry. TT-UTC is that value plus 32.184 s, and Delta T follows the documented quadratics of epoch '
     'with breaks at the documented epochs.',
     ['inputs'], 'all dates, in particular the instants of every step',
     'Tests probe three or four dates; the breakpoints themselves are not sampled.',
     S('dat dtt dt'), [('ordered comparison cascade', 'src/dat.cc')])
prop('C16', 'Epoch and sidereal-time formulas',
     'Besselian and Julian epochs are the documented linear functions of MJD and the two directions are exact inverses; '
     'epoch conversion treats upper- and lower-case system letters alike, returns the epoch unchanged when both systems '
     'are equal and zero for an unknown system. Greenwich mean sidereal time follows the IAU 1982 polynomial of UT1, is '
     'the same function whether the date is given whole or split, and is reduced to 0-2pi; the equation of the equinoxes '
     'is nutation in longitude times cosine obliquity plus the two lunar-node terms.',
     ['inputs'], 'all epochs, dates and system letters', 'Tests check one epoch and upper-case letters only.',
     S('epj epj2d epb epb2d epco gmst gmsta eqeqx'), [('linear formulas around J2000/B1950', 'src/epj.cc, src/epb.cc')])
prop('C17', 'Vector and matrix primitives compute their defining algebra',
     'Dot and cross product, matrix product, matrix-vector product and its inverse (transposed) form, and normalisation '
     'compute their textbook definitions for all component values; normalisation returns the modulus and maps the zero '
     'vector to the zero vector. Rotation-matrix-to-axial-vector recovers axis times angle from any rotation matrix and '
     'returns zero for a null rotation.',
     ['inputs'], 'all component values', 'Tests use one or two fixed matrices; a wrong index cancels for special matrices.',
     S('vdv dvdv vxv dvxv vn dvn mxm dmxm mxv dmxv imxv dimxv m2av dm2av'), [('loops over fixed 3x3 extents', 'src/dmxm.cc')])
prop('C18', 'Rotation matrices are proper rotations and compose as documented',
     'Every matrix the library produces for axial-vector, Euler, precession (FK4, FK5, long-term), nutation, combined '
     'precession-nutation and ecliptic rotations is orthogonal with determinant +1 for all arguments, is the identity for '
     'zero angles or equal epochs, and follows the documented sense of rotation. Euler rotations honour the axis string '
     'letter by letter (x, y, z, any case, or 1, 2, 3), stop at the first other character and ignore axes beyond the '
     'third.',
     ['inputs'], 'all angles, epochs and axis strings', 'A handful of numeric samples cannot establish orthogonality for all '
     'angles nor the handling of every axis string.',
     S('av2m dav2m euler deuler prec precl prebn nut prenut ecmat'), [('products of elementary rotations', 'src/deuler.cc')])
prop('C19', 'Spherical and Cartesian conversions are mutually consistent at all points',
     'Direction cosines of (a, b) are (cos a cos b, sin a cos b, sin b) and the reverse conversion uses the '
     'quadrant-correct arctangent, returning zero longitude on the polar axis and zero latitude for the null vector. The '
     'six-component forms additionally return velocities that are the exact time derivatives of the position components, '
     'with the documented fallback on the polar axis. No angle is taken from an inverse sine or cosine near +-1, so '
     'nothing is lost next to the poles.',
     ['inputs'], 'all coordinates including poles and the origin', 'The singular directions and the coupling between '
     'position and velocity terms are not sampled.',
     S('cs2c dcs2c cc2s dcc2s cs2c6 ds2c6 cc62s dc62s'), [('guarded atan2', 'src/dcc2s.cc')])
prop('C20', 'Separations and bearings are geometrically correct for every pair',
     'The separation of two directions is the angle between them, computed symmetrically and without loss at 0 and pi, '
     'and lies in [0, pi]; the bearing and position angle are the direction of the second point seen from the first in '
     'the local tangent frame, within +-pi. Coincident points, poles and null vectors return zero rather than an '
     'undefined value.',
     ['inputs'], 'all pairs of directions or vectors', 'One or two pairs are tested.',
     S('sep dsep sepv dsepv bear dbear pav dpav'), [('atan2 of cross and dot products', 'src/dsepv.cc, src/dpav.cc')])
prop('C21', 'Frame conversions use one orthogonal matrix per frame pair and invert exactly',
     'Equatorial/galactic, galactic/supergalactic, FK4 equatorial/galactic and equatorial/ecliptic conversions are '
     'rotations by a single orthogonal matrix, applied directly one way and transposed the other, so converting there and '
     'back is the identity for every direction. Results are normalised to longitude 0-2pi and latitude +-pi/2, and the '
     'FK4 galactic pair removes and restores the B1950 E-terms.',
     ['inputs'], 'all directions and dates', 'Each conversion is tested at one direction; round trips are not tested.',
     S('eqgal galeq galsup supgal eg50 ge50 eqecl ecleq ecmat'), [('shared rotation matrices', 'src/eqgal.cc, src/galeq.cc')])
prop('C22', 'Precession, E-terms and proper motion transform directions as documented',
     'Precession between two epochs applies the FK4 or FK5 model selected by the catalogue and sets both coordinates '
     'to -99 for any other catalogue; E-terms of aberration are the documented function of Besselian epoch, are added '
     'by one and removed by the other routine to first order with renormalisation. Proper motion advances the '
     'direction by the space motion built from proper motion, parallax and radial velocity over the epoch difference, '
     'and is the identity for equal epochs.',
     ['inputs'], 'all positions, epochs, motions and catalogues', 'Only one star and two catalogues are sampled.',
     S('preces prec prebn precl etrms addet subet pm'), [('polynomial precession angles', 'src/prec.cc, src/prebn.cc')])
prop('C23', 'Nutation and relativistic-clock series sum every published term',
     'Nutation in longitude and obliquity (both theories), mean obliquity, and TDB-TT equal the sum of all terms of their '
     'published series with the published coefficients, arguments and time powers, each term used exactly once, plus the '
     'documented topocentric and secular terms.',
     ['inputs'], 'all dates and observer positions', 'Small terms are below the sampled tolerance or vanish near the test '
     'epoch, so a dropped or altered term passes.',
     S('nutc nutc80 nut rcc eqeqx'), [('coefficient tables and accumulation loops', 'src/nutc.cc, src/nutc80.cc, src/rcc.cc')])
prop('C24', 'Tangent-plane projection and de-projection are exact with exact status codes',
     'Projection to the tangent plane is the gnomonic projection; its status is OK, too far, antistar on tangent plane or '
     'antistar too far exactly according to the cosine of the angle from the tangent point with limit 1e-6, and outside '
     'OK the denominator is replaced by +-1e-6 so outputs stay finite. De-projection inverts it, spherical and vector '
     'forms agree, and recovering the tangent point from a star and its plane coordinates returns 0, 1 or 2 solutions '
     'exactly as the geometry admits.',
     ['inputs'], 'all stars, tangent points and plane coordinates', 'Tests use one star near the tangent point, never the '
     'error codes or the zero/two-solution cases.',
     S('s2tp ds2tp v2tp dv2tp tp2s dtp2s tp2v dtp2v tps2c dtps2c tpv2c dtpv2c'), [('denominator classification', 'src/ds2tp.cc')])
prop('C25', 'Horizon coordinates, mount rates and hour-angle solutions are exact',
     'Hour angle/declination and azimuth/elevation conversions, zenith distance and parallactic angle are the spherical '
     'trigonometry of the observer\'s latitude with azimuth north through east in 0-2pi; the mount routine\'s velocities '
     'and accelerations are the first and second derivatives with respect to hour angle of its azimuth, elevation and '
     'parallactic angle, with poles and zenith guarded; conversions lose nothing next to the zenith, pole or horizon. The inverse problems (hour angle for a given azimuth or parallactic '
     'angle) flag a solution valid exactly when it exists.',
     ['inputs'], 'all directions, latitudes and angles', 'One direction per routine is sampled, no singular geometry.',
     S('e2h de2h h2e dh2e zd pa altaz pda2h pdq2h'), [('direction-cosine rotation', 'src/de2h.cc')])
prop('C26', 'Refraction and air mass follow their formulas with clamped arguments',
     'Refraction constants, their colour correction, refraction of a zenith distance or vector and air mass follow the '
     'documented formulas; meteorological arguments are limited to their documented physical ranges before use, wavelength '
     'above 100 micrometres selects the radio case, and zenith distances beyond the documented limits use the documented '
     'continuation. Refraction displaces along the vertical towards the zenith and leaves azimuth unchanged.',
     ['inputs'], 'all arguments, including absurd meteorological values and zenith distances beyond the horizon',
     'Tests use one ordinary atmosphere; clamps and continuations are never reached.',
     S('airmas refcoq atmdsp refz refv refco refro'), [('fmin/fmax clamping of arguments', 'src/refcoq.cc, src/refro.cc')])
prop('C27', 'Ephemeris velocities are the time derivatives of positions; all terms are summed',
     'For the Earth (both precise and approximate models), Moon (both models) and the Earth\'s barycentric state, every '
     'term of the published series contributes exactly once to position and velocity, the velocity series is the time '
     'derivative of the position series up to the model\'s own documented approximation, and both are rotated to the '
     'output frame by the same rotation.',
     ['inputs'], 'all dates', 'Tests probe one date, where small terms are invisible or both errors fall below tolerance.',
     S('epv evp earth moon dmoon ecor'), [('coefficient tables and accumulation loops', 'src/epv.cc, src/dmoon.cc')])
prop('C28', 'Observer position, polar motion and observatory look-up',
     "Geocentric coordinates follow the documented reference ellipsoid, and the observer's velocity is exactly the "
     'sidereal rotation of its position; polar motion rotates the terrestrial direction, returning true longitude, '
     'latitude and azimuth correction consistently and defined for every direction including the pole. Observatory '
     'look-up by table position and by identifier return the same record of the published table, and an unknown number '
     'or identifier is reported with the documented placeholder.',
     ['inputs'], 'all latitudes, heights, sidereal times, polar coordinates, numbers and identifiers',
     'Tests look up a few observatories and one site.',
     S('geoc pvobs polmo obs'), [('table search', 'src/obs.cc')])
prop('C29', 'Affine plate models compose, invert and decompose consistently',
     'Applying a linear model to a point and applying the inverse model returns the point for every invertible model, and '
     'a singular model is reported without touching the output; decomposition into zero points, scales, '
     'non-perpendicularity and orientation reproduces the model. Predictions equal the model applied to each measurement '
     'and the residual statistics are their root mean squares; model fitting reports insufficient data and singular '
     'configurations and otherwise returns the least-squares solution.',
     ['inputs'], 'all models and sample sets', 'One model and one sample set are tested.',
     S('xy2xy invf dcmpf pxy fitxy'), [('determinant test and closed-form inverse', 'src/invf.cc')])
prop('C30', 'Small linear systems are solved exactly or reported singular',
     'The matrix inversion routines replace a non-singular matrix by its inverse, the vector by the solution and return '
     'the determinant; they report singularity (and a zero determinant) exactly when the best available pivot is below '
     'the documented threshold. The singular-value back-substitution and covariance routines compute V W^-1 U^T b and '
     'V W^-2 V^T with zero singular values skipped.',
     ['inputs'], 'all matrices of the analysed sizes', 'One 3x3 or 4x3 system is tested; pivoting orders are not covered.',
     S('dmat smat svdsol svdcov'), [('Gauss-Jordan with partial pivoting', 'src/dmat.cc')])
prop('C31', 'Combination and permutation generators enumerate completely without repetition',
     'Starting from the documented initial state, successive calls generate every combination (in increasing order) or '
     'every permutation exactly once, each a valid selection of distinct items, and then report that there are no more; '
     'invalid sizes are rejected without touching the caller\'s data.',
     ['histories', 'inputs'], 'all call sequences from the initial state for the analysed sizes',
     'Tests step one small sequence.', S('combn permut'), [('odometer-style successor function', 'src/combn.cc, src/permut.cc')])
prop('C32', 'Radial-velocity components are the documented linear projections',
     'Each radial-velocity component routine returns the projection of a fixed documented velocity vector (galactic '
     'rotation, Local Group, LSR kinematical and dynamical) on the given direction, and the Earth-rotation component is '
     'the documented product of latitude, declination and hour-angle factors; each is linear in the direction cosines for '
     'every direction.',
     ['inputs'], 'all directions', 'One direction is tested per routine.',
     S('rverot rvgalc rvlg rvlsrd rvlsrk'), [('dot product with a constant vector', 'src/rvgalc.cc')])
prop('C33', 'Pincushion distortion and its removal',
     'Applying distortion multiplies the plane coordinates by 1 + c r^2, and removal solves that cubic exactly, '
     'choosing the root on the branch continuous with zero distortion, for every coefficient and radius away from the '
     'exact turning point of the cubic, leaving the point unchanged at zero radius or zero coefficient.',
     ['inputs'], 'all coefficients (either sign) and coordinates', 'One coefficient is tested.',
     S('pcd unpcd'), [('closed-form cubic solution', 'src/unpcd.cc')])
prop('C34', 'Version number and version string agree',
     'The integer and the textual version reported by the library always denote the same major, minor and release '
     'number.', ['configurations'], 'every edit of the version constants',
     'The test pins one release.', S('veri vers') + ['src/slalib.h'], [('shared version constants', 'src/slalib.h')])
prop('C35', 'SVD factors are orthonormal and reproduce the matrix',
     'Up to rounding, whenever convergence is reported the singular value decomposition returns factors with orthonormal '
     'columns and non-negative singular values whose product reproduces the input, for every matrix with at least as many rows '
     'as columns, including those with zero or repeated singular values. Neither the reduction to bidiagonal form nor any turn of '
     'the iteration changes the product of the factors or their orthonormality. A matrix with more columns than rows '
     'is reported by status -1 and left untouched.', ['inputs'], 'all matrices, all iteration states',
     'One matrix is tested.', S('svd'), [('Householder reduction, QR iteration', 'src/svd.cc')])
prop('C37', 'Random deviates transform one seeded stream exactly',
     'Over any history of calls the uniform generator is seeded once, with an odd integer formed from the magnitude of the '
     'first argument (later arguments are ignored), and each call returns the next canonical deviate of that stream '
     'unchanged, hence in [0,1). The Gaussian-residual routine is the exact polar Box-Muller transformation: uniform '
     'deviates are mapped in pairs to -1..+1, a pair is accepted exactly when it lies inside the unit circle, both residuals '
     'of an accepted pair are returned, in turn and once each, and each is scaled by the standard deviation of its own call; '
     'so residuals have zero mean and the requested standard deviation.',
     ['inputs', 'histories'], 'all sequences of calls', 'Tests average a sample; a biased or repeated deviate passes.', S('random gresid'),
     [('one-time seeding, pair delivered over two calls', 'src/random.cc, src/gresid.cc')])
prop('C38', 'Value types hand back exactly what was stored in them',
     'For the coordinate, position-velocity, mount, plate-model and sexagesimal-result types, every getter returns exactly '
     'the value stored by the setter of that field, under each of the names the field goes by (longitude, right ascension '
     'and hour angle are one field, latitude and declination another, hours and degrees another); setting one field '
     'leaves all others unchanged. Constructors, whole-vector views and indexed access show the same fields in the '
     'documented order, the sign of a sexagesimal result reads + or - however it was set, and no double-precision field '
     'passes through single precision.',
     ['inputs'], 'all values, all fields, all accessor names', 'Tests read a few fields of results and never write through most accessors.',
     ['src/slalib.h'], [('paired accessors over shared fields', 'src/slalib.h')])
prop('C36', 'Refraction integral converges to the requested accuracy',
     'The ray-tracing refraction routine returns the refraction integral of the model atmosphere to within the requested '
     'relative accuracy.', ['inputs'], 'all arguments', 'A few zenith distances are tested.', S('refro'),
     [('adaptive Simpson quadrature', 'src/refro.cc')])

if __name__ == '__main__':
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
    with open(out, 'w') as f:
        for p in P:
            f.write(json.dumps(p) + '\n')
