"""Generates /verif/properties.jsonl (kept as a script so that the long lines stay editable)."""
import json, os
E = "eoxmagmod/eoxmagmod/"
M = E + "magnetic_model/"
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

prop("C01", "Sorted-node lookup returns the bracketing interval",
 "For every non-empty ascending sequence of nodes and every value, the interval search returns the index i for which node[i] <= x < node[i+1] (left-closed variant) or node[i] < x <= node[i+1] (right-closed variant), -1 for a value below the first node and for NaN, and the last node index for a value beyond the last node. The search terminates and never reads outside of the node sequence, whatever the number of nodes, and repeated nodes are resolved consistently with these inequalities. Values given as an array are resolved element by element.",
 ["inputs"], "all node counts n >= 1, all ascending (also repeated) finite nodes, all values including NaN and +-inf, both interval conventions",
 "Tests sample a few node vectors; the claim is for every length and every position of the value relative to the nodes, which needs the loop invariant.",
 [E+"include/bisect.h", E+"pymm_bisect.h"],
 [("binary search over the sorted nodes", "include/bisect.h: bisect_right, bisect_left"), ("n-dimensional array walk", "pymm_bisect.h: _bisect")],
 ["_pymm.bisect"])
prop("C02", "Time-series interpolation is the defined piecewise function",
 "For strictly ascending nodes, piecewise-constant interpolation returns the value held from the last node not later than the time (also beyond the last node), and piecewise-linear interpolation (or its first derivative) returns the straight line (or the slope) of the bracketing interval, the last node included. Outside of the node range the result is NaN, except for piecewise-constant values after the last node, unless extrapolation is requested, when the first/last segment (or the first/last value) is extended; NaN times yield NaN for piecewise-linear values and, without extrapolation, for every kind. The result for each time and each coefficient row does not depend on the other times and rows.",
 ["inputs"], "all node counts, all node values, all times incl. nodes themselves, outside times and NaN, all coefficient array shapes, with and without extrapolation",
 "Tests compare a handful of grids with scipy; boundaries, single segments, and shape combinations are unbounded.",
 [E+"include/interpolation.h", E+"include/bisect.h", E+"pymm_interp.h"],
 [("interval + basis", "include/interpolation.h: get_interp0_basis, get_interp1_basis, get_interp1d1_basis"), ("evaluation", "include/interpolation.h: interp0_eval, interp1_eval"), ("domain masking and n-D walk", "pymm_interp.h")],
 ["_pymm.interp"])
prop("C03", "Legendre functions are Schmidt semi-normalised, with true derivatives",
 "For every degree n, order m <= n and latitude, the associated Legendre functions are the Schmidt semi-normalised functions (without Condon-Shortley phase) of the sine of latitude, stored at position n(n+1)/2+m, and the second output is their derivative with respect to latitude. This holds for low and high degrees alike and at the poles, where values are finite. The leading terms do not depend on the requested maximum degree.",
 ["inputs"], "all maximum degrees >= 0 (up to array index limits), all latitudes in [-90, 90] degrees",
 "Tests check a few degrees and latitudes against reference tables; the recurrences must be right for every (n, m), on both internal algorithms and at the switch between them.",
 [E+"include/spherical_harmonics.h", E+"pymm_legendre.h"],
 [("low degree/pole algorithm", "include/spherical_harmonics.h: shc_legendre_low"), ("high degree algorithm", "include/spherical_harmonics.h: shc_legendre_high"), ("square-root tables", "shc_presqrt, shc_prersqrt"), ("selection", "shc_legendre")],
 ["_pymm.legendre"])
prop("C04", "Radial powers and longitude series have the exact term for every index",
 "For every degree, term i of the radial series is (reference radius/radius)^(i+2) for internal and (radius/reference radius)^(i-1) for external sources, and term i of the longitude series is (cos(i*lon), sin(i*lon)). The fast recurrence and the reference evaluation of the longitude series agree. Array inputs are evaluated element by element and the reference radius scales the input only.",
 ["inputs"], "all degrees >= 0, all positive radii, all longitudes, both series kinds, both evaluation variants",
 "Tests sample few degrees; the recurrences must hold for every index, also at degrees 0 and 1 where special cases are coded.",
 [E+"include/spherical_harmonics.h", E+"include/fourier_series.h", E+"pymm_relradpow.h", E+"pymm_loncossin.h"],
 [("power recurrences", "shc_relradpow_internal, shc_relradpow_external"), ("angle addition recurrence", "fs_cos_sin, fs_cos_sin_ref")],
 ["_pymm.relradpow", "_pymm.loncossin"])
prop("C05", "Spherical harmonic sums are complete and mode independent",
 "The potential is radius times the sum over all degrees n and orders m of R_n*(g_nm*cos(m*lon)+h_nm*sin(m*lon))*P_nm, and the three gradient components are its derivatives along north, east and up, where east at the poles is the finite limit. The potential-only, gradient-only and combined evaluations give the same values, for internal and external sources. Zero coefficients contribute nothing and the result is linear in the coefficients.",
 ["inputs"], "all degrees, all coefficients, all precomputed series arrays, internal and external kind, all three modes, pole and non-pole branch",
 "Tests compare few models; no test fixes each of the (n, m) terms in every component and mode.",
 [E+"include/spherical_harmonics.h", E+"pymm_spharpot.h", E+"pymm_sphargrd.h"],
 [("double sums", "shc_eval_v, shc_eval_dv, shc_eval_v_dv"), ("pole limit", "shc_eval_dvaz_pole"), ("mode dispatch", "shc_eval")],
 ["_pymm.spharpot", "_pymm.sphargrd"])
prop("C06", "Model evaluation is frame-consistent and scaled as requested",
 "For any coefficients, any location and any pair of input and output coordinate systems (geodetic WGS84, geocentric spherical, geocentric Cartesian), the evaluated gradient is the same physical vector expressed in the requested frame, and the potential is the same number. The optional maximum degree truncates the expansion, and each of the scale factors multiplies its own output component after the rotation. Potential, gradient and combined modes agree with each other.",
 ["inputs", "configurations"], "all 9 frame pairs, all locations away from the Earth's centre, all degrees, scalar or 3-component scales, internal and external",
 "Tests use a fixed grid with a few models and compare with the same building blocks.",
 [E+"pymm_sheval.h", E+"include/geo_conversion.h", E+"include/math_aux.h"],
 [("single point evaluation", "pymm_sheval.h: _model_eval"), ("vector rotation", "include/math_aux.h: rot2d"), ("set-up", "pymm_sheval.h: _model_init")],
 ["_pymm.sheval"])
prop("C07", "Batch evaluation equals point-by-point evaluation",
 "Evaluating arrays of locations, times and/or coefficients gives for each element bit-for-bit the value which a separate single-element call gives, whatever was evaluated before it in the same batch, in whatever order or repetition. The result does not depend on the memory layout of the inputs (strides, Fortran order, read-only views, other numeric types), and the leading dimensions of the arguments are matched or broadcast by one rule with mismatching shapes rejected by an exception. The inputs are never modified.",
 ["inputs", "histories"], "all batch shapes, element orders and repetitions, all memory layouts, for the native field evaluation, interpolation, series, coordinate conversion and vector rotation functions",
 "The evaluators cache the last latitude, longitude, radius and time between points, so the claim is over all histories of a batch; tests use smooth grids.",
 [E+"pymm_sheval.h", E+"pymm_shevaltemp.h", E+"pymm_sheval2dfs.h", E+"pymm_aux.h", E+"pymm_interp.h", E+"pymm_cconv.h", E+"pymm_vrot_sph2geod.h", E+"pymm_vrot_sph2cart.h", E+"pymm_vrot_cart2sph.h"],
 [("caches of the last coordinates", "pymm_sheval.h: _model_eval"), ("cache of the last time", "pymm_shevaltemp.h, pymm_sheval2dfs.h"), ("n-D walk", "pymm_aux.h: _get_arrd_item*")],
 ["_pymm.sheval", "_pymm.shevaltemp", "_pymm.sheval2dfs"],
 [("model work arrays", "hold the series of the last evaluated latitude, longitude, radius and time", "pymm_sheval.h: MODEL")])
prop("C08", "Time-dependent evaluation equals evaluation of interpolated coefficients",
 "Field evaluation from time series of coefficients gives the field of the coefficient matrix obtained by interpolating every series at the requested time (piecewise constant or linear, extrapolated at the ends) and placing it at its degree and order, with negative order denoting the sine coefficient. When more coefficient sets are given their contributions are summed. This holds for every time of a batch independently of the other times and for every split of the coefficients to sets.",
 ["inputs", "histories"], "all node sets, orders of times, numbers of sets (1-16), subsets of (n, m), spline orders 1 and 2",
 "Tests evaluate few models with sorted times and disjoint sets.",
 [E+"pymm_shevaltemp.h", E+"include/interpolation.h"],
 [("interpolation of sets", "pymm_shevaltemp.h: _coeff_interp, _coeff_set_interp0/1"), ("position of the coefficients", "pymm_shevaltemp.h: _coefset_init")],
 ["_pymm.shevaltemp"])
prop("C09", "2D Fourier series and the models built on it are evaluated exactly",
 "For every range of indices i and j (negative, mixed or positive), all coefficients, scales and times the 2D Fourier series evaluates to the sum over i and j of A_ij*cos(i*s1*t1+j*s2*t2)+B_ij*sin(i*s1*t1+j*s2*t2). A spherical harmonic model whose coefficients are such series gives the field of the coefficient matrix evaluated by the series at the given pair of times. Each element of a batch is independent of the others.",
 ["inputs", "histories"], "all index ranges incl. ranges not containing 0, all sizes, scales and times",
 "Tests use the one MIO index range; asymmetrical and shifted ranges are not reached.",
 [E+"include/fourier_series.h", E+"pymm_fourier2d.h", E+"pymm_sheval2dfs.h"],
 [("series of cosines and sines", "include/fourier_series.h: fs_cos_sin, fs_cos_sin_neg, fs_cos_sin_2d"), ("summation", "include/fourier_series.h: fs_eval_2d"), ("work arrays", "pymm_fourier2d.h: _fourier2d_init, _fourier2d_cossin")],
 ["_pymm.fourier2d", "_pymm.sheval2dfs"])
prop("C10", "Coordinate conversions are exact, mutually inverse and compose",
 "Geodetic (WGS84), geocentric spherical and geocentric Cartesian coordinates of a point denote the same point in space after any conversion: geodetic coordinates follow the ellipsoid definition, a conversion and its inverse return the original coordinates (longitudes up to full turns) and a direct conversion equals the conversion through a third system. This holds for all latitudes in [-90, 90] degrees including the poles and the equator, all longitudes and all radii above 1000 km. Converting to the same system returns the values unchanged.",
 ["inputs"], "all points with geocentric radius between 1000 km and 1e6 km, all 9 system pairs",
 "Tests use grids; the closed-form geodetic inversion has distinct numerical regimes that grids do not exhaust.",
 [E+"include/geo_conversion.h", E+"pymm_cconv.h"],
 [("geodetic to geocentric", "include/geo_conversion.h: _geodetic2geocentric"), ("Ferrari inversion", "include/geo_conversion.h: _geocentric2geodetic"), ("dispatch", "pymm_cconv.h: _convert_all, _get_fnc")],
 ["_pymm.convert"])
prop("C11", "Vector rotations and vector quantities are exact",
 "Rotating vectors between local spherical, local geodetic and Cartesian frames is the orthogonal transformation given by the local north, east and up axes at the point: it preserves the vector norm, opposite rotations are mutually inverse, and the result depends only on the vector and the angles of its own point. Rotation to the same frame returns the vectors unchanged and an unsupported frame raises an error. The vector norm is the Euclidean one, and inclination (positive down), declination (clockwise from north) and intensity reproduce the vector.",
 ["inputs"], "all vectors, all latitudes and longitudes, all frame pairs, all array shapes",
 "Tests check few frames at sampled points.",
 [E+"include/math_aux.h", E+"pymm_vrot_common.h", E+"pymm_vrot_sph2cart.h", E+"pymm_vrot_cart2sph.h", E+"pymm_vrot_sph2geod.h", E+"util.py"],
 [("planar rotation", "include/math_aux.h: rot2d"), ("composition", "pymm_vrot_*.h"), ("dispatch", "util.py: vrotate, vnorm, vincdecnorm")],
 ["_pymm.vrot_sph2geod", "_pymm.vrot_sph2cart", "_pymm.vrot_cart2sph", "util.vrotate"])
prop("C12", "Calendar time conversions are mutually inverse and continuous",
 "Conversion of MJD2000 to the decimal year yields the calendar year (Julian until 1582, Gregorian afterwards) plus the elapsed fraction of its actual length of 365 or 366 days, the year fraction is the part within the year, and the opposite conversion restores the original time. The conversions are strictly increasing and continuous over year boundaries and leap years (the calendar reform year 1582 excepted), agree with the proleptic calendar arithmetic of standard date libraries since 1583, and infinite values and NaN are passed through by the decimal year to MJD2000 conversion. The simplified conversions use a year of exactly 365.25 days.",
 ["inputs"], "all days of all years between 1 and 9999 and all fractions of a day",
 "Tests sample random times in a limited range; calendar arithmetic must be right for every day, century and leap year.",
 [E+"include/time_conversion.h", E+"pytimeconv_mjd2000_to_decimal_year.h", E+"pytimeconv_decimal_year_to_mjd2000.h", E+"pytimeconv_mjd2000_to_year_fraction.h", E+"time_util.py"],
 [("day number to year", "include/time_conversion.h: mjd2k_to_year"), ("start of the year", "include/time_conversion.h: mjd2k_year_start"), ("leap years", "include/time_conversion.h: is_leap_year")],
 ["time_util.decimal_year_to_mjd2000", "time_util.mjd2000_to_decimal_year", "time_util.mjd2000_to_year_fraction"])
prop("C13", "Native code never leaves its buffers and rejects invalid inputs",
 "Whatever arguments are passed, the native evaluation functions either return a result or raise a Python exception: no read or write ever happens outside of the input, output and work arrays, for every degree, index range, array shape and coefficient index. Wrong argument types, mismatching shapes, too short arrays and invalid degree/order pairs are reported as exceptions. Memory allocated for an evaluation is released again, also when the evaluation fails.",
 ["inputs"], "all argument values and array shapes (degrees up to 46339 so that indices fit a C int)",
 "Out-of-bounds accesses mostly go unnoticed in ordinary tests, and tests pass valid arguments only.",
 [E+"include/spherical_harmonics.h", E+"include/fourier_series.h", E+"include/interpolation.h", E+"include/bisect.h", E+"pymm_sheval.h", E+"pymm_shevaltemp.h", E+"pymm_sheval2dfs.h", E+"pymm_fourier2d.h", E+"pymm_interp.h", E+"pymm_aux.h"],
 [("allocation sizes", "_model_init, _model_ts_init, _model_2dfs_init, _fourier2d_init, shc_presqrt"), ("argument checks", "sheval, shevaltemp, sheval2dfs, parse_coefset, _f2d_coefset_parse"), ("index arithmetic", "shc_legendre_low, shc_legendre_high, shc_eval_*, fs_*")],
 ["_pymm.*"])
prop("C14", "Interval decomposition keeps precedence and coverage",
 "Making intervals non-overlapping gives ascending disjoint intervals covering exactly the union of the inputs of positive length, and every instant inside them is owned by the first input interval, in the given order, that contains it. Aggregating two lists of intervals gives exactly the non-empty intersections, each with the objects of both sides in order. Both hold for any number, order, nesting and bounds (also infinite) of the intervals.",
 ["inputs"], "all finite lists of closed intervals with real or infinite bounds, in any order and nesting",
 "Tests list a few dozen configurations; the insertion algorithm must be right for every list.",
 [M+"util.py"],
 [("insertion into the sorted list", "util.py: get_nonoverlapping_intervals"), ("sweep", "util.py: aggregate_intersected_intervals")],
 ["magnetic_model.util"])
prop("C15", "Coefficient sets are placed, subset, composed and combined correctly",
 "A coefficient matrix returned for a time holds each coefficient at its own degree and order (sine part for negative orders) with zeros elsewhere, and limiting the degree range keeps exactly the coefficients of that range and reports the largest remaining degree. A composed set evaluates, for each time separately, the first listed member valid at that time (the first member if none is), and a combined set evaluates the sum of its members; their degree range, validity and source kind follow from the members, with time gaps and mixed kinds rejected. Order of the time nodes given at construction is irrelevant.",
 ["inputs", "configurations"], "all index lists, degree limits, numbers and nestings of members, all scalar and array times",
 "Tests build a few small sets; nesting, overlapping members and degree subsets combine without bound.",
 [M+"coefficients.py", M+"util.py"],
 [("index placement", "coefficients.py: SparseSHCoefficients"), ("degree subset", "coefficients.py: subset_degree"), ("composition", "coefficients.py: ComposedSHCoefficients, CombinedSHCoefficients")],
 ["magnetic_model.coefficients"])
prop("C16", "Model evaluation honours validity and matches its coefficients",
 "At every time within the validity range a spherical harmonic model gives the field (minus the gradient of the potential, times the optional scale) of its own coefficients at that time, and NaN outside of the range and for NaN times. Arrays of times and locations of any compatible shapes give element by element what scalar evaluation gives, and time or location of fewer dimensions is broadcast over the trailing dimensions of the other. Incompatible shapes are rejected.",
 ["inputs", "histories"], "all models (simple, composed, combined, decimal-year based), all times relative to the validity bounds, all shape combinations, degree limits and scales",
 "Tests run the shipped models at random times; boundaries, shape combinations and mixed coefficient types are not covered.",
 [M+"model.py", M+"util.py", M+"coefficients.py"],
 [("selection of the evaluation", "model.py: _select_evaluation_method"), ("validity masks", "model.py: eval"), ("broadcasting", "util.py: reshape_times_and_coordinates")],
 ["SphericalHarmomicGeomagneticModel.eval"])
prop("C17", "A composed model is the scaled sum of its members in any frame",
 "A model composed of other models evaluates to the sum of the member fields, each with its own scale and own parameters, in any requested output frame and from any input frame, multiplied by the optional overall scale. Its validity is the intersection of the member validities and its required parameters the union of the members' ones. An empty composition evaluates to zero (NaN at NaN times).",
 ["inputs", "configurations"], "all numbers of members, scales, per-member parameters, frames, shapes of time and location",
 "Tests compose two or three models with fixed frames.",
 [M+"model_composed.py"],
 [("summation and rotation", "model_composed.py: ComposedGeomagneticModel.eval"), ("bookkeeping", "model_composed.py: push")],
 ["ComposedGeomagneticModel.eval"])
prop("C18", "Dipole-frame conversions and models are rigid rotations",
 "For every pole position the dipole frame is a rigid rotation which maps the pole to the dipole north pole and keeps the radius, and rotating vectors back from it restores the same physical vector in every output frame. A model in dipole coordinates gives the same physical field as its expansion evaluated at the rotated location. Results for input in geodetic, spherical and Cartesian coordinates agree.",
 ["inputs", "configurations"], "all pole positions, locations, frames and evaluation modes",
 "Tests fix one or two pole positions.",
 [E+"dipole.py", E+"dipole_coords.py", M+"model.py"],
 [("rotation matrix", "dipole_coords.py: get_dipole_rotation_matrix"), ("coordinates and vectors", "dipole_coords.py: convert_to_dipole, vrot_from_dipole; dipole.py"), ("model", "model.py: DipoleSphericalHarmomicGeomagneticModel")],
 ["dipole", "dipole_coords"])
prop("C19", "Ionospheric model: field, scaling and layer switching",
 "The ionospheric model gives, at any time and location, the dipole-frame field of the 2D Fourier series coefficients evaluated at the year fraction and the magnetic universal time, scaled by 1 + Wolf ratio * F10.7 when F10.7 is given, and NaN where F10.7 is NaN. The primary field is taken from the below-ionosphere model at and below the ionosphere radius and from the above-ionosphere model above it, point by point; the converted coefficients of the latter keep the radial field continuous across the layer. Arrays of times, locations and F10.7 agree with scalar evaluation and a user defined sub-solar point overrides the Sun model.",
 ["inputs", "configurations"], "all times, locations, F10.7 values, radii relative to the layer, sub-solar points, scalar and array inputs",
 "Tests use one product file and random points, with the same code on both sides of the comparison.",
 [M+"model_mio.py", M+"coefficients_mio.py", M+"loader_mio.py"],
 [("scaling and masks", "model_mio.py: DipoleMIOGeomagneticModel.eval"), ("switching", "model_mio.py: MIOPrimaryGeomagneticModel.eval"), ("external to internal", "loader_mio.py: convert_external_mio_coeff")],
 ["model_mio"])
prop("C20", "Field-line tracing follows the field through the start point",
 "A traced field line contains the start point, consecutive points differ by the step times the local field direction (scaled by radius over Earth radius) along the field on one side and against it on the other side, and points are ordered along the field. Each side stops at the first point at or beyond the radius limits or after the maximum number of steps. The field reported with every point is the model field at that point, in the requested output frame.",
 ["inputs", "histories"], "all models, start points, steps, radius limits, numbers of steps and frames",
 "Tests trace few lines with one model and default options.",
 [M+"field_lines.py"],
 [("stepping", "field_lines.py: _trace_field_line"), ("direction", "field_lines.py: _model_function"), ("joining", "field_lines.py: trace_field_line")],
 ["trace_field_line"])
prop("C21", "Model files are read without loss or displacement",
 "For any well-formed SHC, IGRF, WMM, EMM and MIO file, each coefficient value ends up at its own degree, order (negative for the sine part) and time node, in the file's units, with secular variation turned into a second node five years after the epoch. Header values, comments and blank leading lines are interpreted as the formats define, the validity and interpolation order declared by the file are respected (the order limited to linear), and inconsistent files are rejected. Reading depends only on the file content.",
 ["inputs"], "all well-formed file contents: numbers of degrees, nodes, comment lines and header options",
 "Tests read the shipped files only.",
 [M+"parser_shc.py", M+"loader_shc.py", M+"parser_igrf.py", M+"loader_igrf.py", M+"parser_wmm.py", M+"loader_wmm.py", M+"parser_emm.py", M+"loader_emm.py", M+"parser_mio.py", M+"loader_mio.py"],
 [("parsers", "parser_*.py"), ("construction of the coefficients", "loader_*.py")],
 ["parse_*_file", "load_coeff_*"])
prop("C22", "Magnetospheric product files are read and merged consistently",
 "Coefficients of magnetospheric products keep their degree, order and sample time (days since 2000-01-01) when read, and the products of consecutive files are merged in the given order into one continuous series per coefficient. Files with different degrees or orders, or not in time order, are rejected. The two coefficient sets of a combined product are both applied.",
 ["inputs"], "all numbers of files, times, indices and coefficients",
 "Tests merge one or two sample products.",
 [M+"loader_mma.py", M+"parser_mma.py"],
 [("merging", "loader_mma.py: _merge_coefficients"), ("reading", "parser_mma.py: read_swarm_mma_coefficients")],
 ["load_coeff_swarm_mma_*"])
prop("C23", "Quasi-dipole quantities depend on their own point only",
 "Quasi-dipole coordinates, base vectors, magnetic local times and sub-solar points computed for arrays equal those computed separately for each element (within single precision, with times in one call differing either by nothing or by more than a day), and shapes are preserved or mismatches rejected. The sub-solar point follows the calendar date and time of day continuously, also before 2000, and the magnetic local time advances by 24 hours per turn of quasi-dipole longitude. Results do not depend on the calls made before.",
 ["inputs", "histories"], "all arrays of points and times between 1980 and 2030, all orders of elements and calls",
 "The Fortran library keeps global state between points and calls; tests use one sorted data table.",
 [E+"pyqd_eval_qdlatlon.h", E+"pyqd_eval_mlt.h", E+"pyqd_eval_subsol.h", E+"quasi_dipole_coordinates.py", "qdipole/eval_qdlatlon.f90", "qdipole/eval_mlt.f90", "qdipole/eval_subsol.f90"],
 [("wrappers", "pyqd_eval_*.h"), ("epoch caching", "qdipole/eval_*.f90")],
 ["quasi_dipole_coordinates"])
prop("C24", "Sun position is consistent across its outputs, inputs and variants",
 "The declination, right ascension, hour angle, azimuth and zenith angle returned for a time and location describe one and the same direction: hour angle minus its value at longitude zero equals the longitude, zenith and azimuth follow from declination, hour angle and latitude by the horizontal coordinate transformation, and all are in their defined ranges and vary continuously in time. Parallax is applied if and only if the radius is positive, and the fast and the original algorithm agree to their stated accuracy. Arrays equal element-wise evaluation.",
 ["inputs"], "all times between 1900 and 2100, latitudes, longitudes, radii and time offsets",
 "Tests compare with one table of values.",
 [E+"include/sun_ephemeris.h", E+"pysunpos.h", E+"pysunpos_original.h", E+"solar_position.py"],
 [("ephemeris", "include/sun_ephemeris.h"), ("wrappers", "pysunpos.h, pysunpos_original.h")],
 ["solar_position.sunpos"])
prop("C25", "Magnetic universal time is the dipole longitude of the Sun",
 "Magnetic universal time equals, in hours and modulo 24, twelve hours minus the angle between the noon half-plane and the sub-solar point in the dipole frame of the given pole, i.e. it is the geometrical dipole longitude of the sub-solar point up to the fixed 180 degree offset, and always lies between 0 and 24. A user supplied sub-solar point is used if both of its coordinates are given, the Sun model otherwise. Arrays equal element-wise evaluation.",
 ["inputs"], "all times, pole positions and sub-solar points",
 "Tests sample random times for one pole with a copy of the formula.",
 [E+"magnetic_time.py"],
 [("spherical trigonometry", "magnetic_time.py: _mjd2000_to_magnetic_universal_time"), ("sub-solar point", "magnetic_time.py: get_subsol")],
 ["mjd2000_to_magnetic_universal_time"])

for p in P:
    assert len(p["title"]) <= 80, p["title"]
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P))
