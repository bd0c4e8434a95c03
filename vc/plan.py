"""Which functions each property depends on, and the assumptions left unchecked."""
ARITH = ["floating-point arithmetic of the C code is taken as real arithmetic: rounding, overflow to infinity and underflow are not modelled (integers: exact, with overflow obligations)",
         "libm functions (sqrt, sin, cos, ...) are taken as the mathematical functions",
         "C pointers of distinct arguments do not alias (as the restrict qualifiers and the callers' allocations state)"]
TRUST = ["clang (parsing of the real sources to the AST)", "the symbolic executor and the proof rules in /verif/vc (cexec.py, loops.py, prover.py, contract.py; for Python functions pyvc.py, py_*.py and the CPython interpreter which executes the rewritten source)",
         "z3 5.3.2, cvc5 1.1.2", "rational normal form (ring.py)", "spec functions and their defining equations (specs.py)"]
EXTRACTION = "C functions: functions are taken from clang's AST of /repo's current sources on every run; nothing is rewritten and nothing is dropped but comments. Python functions: the module's current source is parsed, every for/while loop is rewritten mechanically to 'while True' with a head (test, iterator and body kept), and executed on symbolic arrays in place of numpy; nothing is dropped but comments"
PARTS = {"_spharpot": 4, "_sphargrd": 8, "_model_eval": 8, "_sunpos": 6, "_sunpos_original": 16, "sunpos5original": 6}          # functions whose cases are divided to several processes
C = {}          # property -> list of (module, source, [functions])
C["C01"] = [("k_bisect", "pymm.c", ["bisect_right", "bisect_left"])]
C["C02"] = [("k_bisect", "pymm.c", ["bisect_right", "get_interp0_basis", "get_interp1_basis", "get_interp1d1_basis", "interp0_eval", "interp1_eval"])]
C["C03"] = [("k_legendre", "pymm.c", ["shc_legendre_low", "shc_legendre_high", "shc_legendre", "shc_presqrt", "shc_prersqrt"])]
C["C04"] = [("k_series", "pymm.c", ["shc_relradpow_internal", "shc_relradpow_external", "fs_cos_sin", "fs_cos_sin_ref"])]
C["C05"] = [("k_sheval", "pymm.c", ["shc_eval_v", "shc_eval_dvaz_pole", "shc_eval_dv", "shc_eval_v_dv", "shc_eval"])]
C["C09"] = [("k_fourier", "pymm.c", ["fs_cos_sin_neg", "fs_cos_sin_2d", "fs_eval_2d"]), ("k_series", "pymm.c", ["fs_cos_sin"])]
C["C12"] = [("k_time", "pytimeconv.c", ["is_leap_year", "days_per_year", "years_per_day", "mjd2k_year_start", "mjd2k_to_year", "mjd2k_to_year_fraction", "mjd2k_to_decimal_year", "decimal_year_to_mjd2k"]),
            ("k_time", "pysunpos.c", ["mjd2k_to_date"])]
GEO = ["_geodetic2geocentric", "_geocentric2geodetic", "geodetic2geocentric_cart", "geodetic2geocentric_sph", "sph2cart", "cart2sph", "geocentric_cart2geodetic", "geocentric_sph2geodetic",
       "norm2d", "norm3d", "conv_identity", "conv_WGS84_to_cartECEF", "conv_WGS84_to_sphECEF", "conv_cartECEF_to_WGS84", "conv_cartECEF_to_sphECEF", "conv_sphECEF_to_WGS84", "conv_sphECEF_to_cartECEF"]
C["C10"] = [("k_geo", "pymm.c", GEO)]
C["C11"] = [("k_geo", "pymm.c", ["rot2d", "norm2d", "norm3d"])]
NOTES = {}      # property -> extra assumptions
PY = {}         # property -> list of (module, function): Python verification conditions
PY["C03"] = [("lemmas", "legendre")]
NOTES["C03"] = ["the spec of the Schmidt functions is the recurrence of the Gauss normalised functions (as polynomials in sin(latitude)) with the Schmidt factors; its agreement with the textbook definition (Rodrigues formula) is not machine-checked (the bounded layer compares with an independent evaluation)",
                "the derivative spec is the chain rule applied to S(n,m) cos^m(lat) G(n,m)(sin(lat)), with DG the termwise derivative of the recurrence of G"]
NOTES["C05"] = ["the series supplied to the sums begin with P_00 = 1, dP_00 = 0, cos 0 = 1, sin 0 = 0 (postconditions of shc_legendre and fs_cos_sin under C03 and C04)"]
PY["C12"] = [("lemmas", "calendar")]
NOTES["C12"] = ["infinite values are not modelled: that decimal_year_to_mjd2k passes them is left to the bounded layer (NaN: proved)",
                "the day of the month and the month against the calendar are proved in the thorough tier only (run time); year, range of the month and hours in both"]

PY["C10"] = [("lemmas", "geometry")]
NOTES["C10"] = ["points closer to the centre of the Earth than 1000 km are outside of the domain of the contract", "the sign of zero is not modelled (longitude and latitude of points on the polar axis or on the antimeridian: bounded layer)",
                "degree constants: M_PI/180 and 180*M_1_PI are taken as the exact rational values of the doubles; their product differs from 1 by rounding and the inverse lemma is stated in radians"]
C["C10"].append(("k_walk", "pymm.c", ["_convert"]))
C["C11"].append(("k_walk", "pymm.c", ["_vrot_sph2cart", "_vrot_cart2sph", "_vrot_sph2geod"]))
C["C12"].append(("k_walk", "pytimeconv.c", ["_mjd2k_to_year", "_mjd2k_to_year_fract", "_year_to_mjd2k"]))
WALK = ["byte offsets inside of NumPy arrays do not overflow (extents up to 2^40, ranks up to 64); strides are multiples of 8; distinct multi-indices of an output array are distinct elements of memory",
        "NumPy hands over arrays with the data, dimensions and strides it reports (PyArray_DATA, PyArray_DIMS, PyArray_STRIDES); the parsing of the Python arguments is covered by the bounded layer"]
C["C01"].append(("k_walk", "pymm.c", ["_bisect_left", "_bisect_right"]))
C["C03"].append(("k_walk", "pymm.c", ["_legendre"]))
C["C04"].append(("k_walk", "pymm.c", ["_loncossin", "_relradpow"]))
C["C05"].append(("k_walk", "pymm.c", ["_spharpot", "_sphargrd"]))
for p in ("C01", "C03", "C04", "C05", "C10", "C11", "C12"): NOTES.setdefault(p, []).extend(WALK)
C["C02"].append(("k_walk", "pymm.c", ["_interp", "_interp_eval", "_fill_value"]))
NOTES.setdefault("C02", []).extend(WALK)
NOTES["C02"] += ["NaN times with extrapolation and NaN coefficients are left to the bounded layer", "the number of nodes equals the length of the last axis of the coefficients (checked by the Python interface of interp; bounded layer)"]
MODEL = ["_model_reset", "_model_destroy", "_model_init", "_model_eval"]
SHEVAL = ["_sheval_pot", "_sheval_grd", "_sheval_pot_and_grd"]
C["C06"] = [("k_model", "pymm.c", MODEL), ("k_walk", "pymm.c", SHEVAL)]
C["C07"] = [("k_model", "pymm.c", MODEL), ("k_walk", "pymm.c", SHEVAL)]
NOTES["C06"] = WALK + ["points closer to the centre of the Earth than 1000 km are outside of the domain of the contract (C10)",
    "the callers of _model_eval use its value as a function of the point, the parameters of the model and the contents of the coefficients: the postcondition gives an expression of nothing else; the cached series are its hidden state",
    "NaN and infinite coordinates are left to the bounded layer"]
NOTES["C07"] = NOTES["C06"]
SETS = ["_coeff_set_interp0", "_coeff_set_interp1", "_coeff_interp", "_coefset_reset", "_coefset_destroy", "_coefset_init", "_model_ts_reset", "_model_ts_destroy", "_model_ts_init"]
C["C08"] = [("k_temp", "pymm.c", SETS), ("k_walk", "pymm.c", ["_shevaltemp_pot", "_shevaltemp_grd", "_shevaltemp_pot_and_grd"]),
            ("k_bisect", "pymm.c", ["bisect_right", "get_interp0_basis", "get_interp1_basis", "interp0_eval", "interp1_eval"]), ("k_model", "pymm.c", MODEL)]
NOTES["C08"] = NOTES["C06"] + ["NaN times and coefficients are left to the bounded layer", "extents of one coefficient set up to 2^20 times and 2^20 series; degree up to 46339",
    "the walkers see the interpolated coefficients as a function of the time and of the coefficient sets (which nothing writes); that _coeff_interp leaves the sum over the sets of the interpolated series is its own contract",
    "the number of coefficient sets and their shapes are checked by the Python arguments' parser (bounded layer)"]

C["C24"] = [("k_sun", "pysunpos.c", ["_sunpos_original", "sunpos5original", "_sunpos", "sunpos5equat", "sunpos5eq2hor"]), ("k_time", "pysunpos.c", ["mjd2k_to_date"])]
PY["C24"] = [("lemmas", "sun")]
NOTES["C24"] = WALK + ["times within 5e7 days of 2000 (sunpos), from the Julian day number 0 to 4e7 days (sunpos_original)", "refraction of the original variant: temperature other than -273 and a finite cotangent (precondition: the formula is defined)",
    "agreement of the two variants: the same formulas (both contracts) at the same day (lemma 'day count'); the offset to TT is multiplied by 1.1574e-5 in one and by 1/86400 in the other; the numerical tolerance is left to the bounded layer",
    "a function of C which reads nothing but its arguments gives a function of its arguments (date of the time)", "continuity in time: by the form of the expressions (compositions of continuous functions, whole turns aside)"]

# ---------------------------------------------------------------- Python functions (pyvc.py)
PYSEM = ["Python layer: NumPy functions have the semantics written in pyvc.py (element by element, broadcasting, views, in-place writes); an unsupported construct puts the function out of reach (no obligation; bounded layer)",
         "ranks of arrays are enumerated (0, 1, 2; 3 where a component axis is added), extents and elements are arbitrary; the arbitrary element stands for every element: no state kept between elements but the local variables of the loops, which are cut by invariants",
         "extension modules are taken by their contracts, element by element: conversions, rotations and evaluations as functions of their arguments (C06-C11), the sun's position (C24)",
         "floating-point arithmetic is taken as real arithmetic with a NaN flag; infinities by order only; pi is the double"]
PY["C11"] = [("py_dipole", "frames")]
PY["C14"] = [("py_intervals", "nonoverlapping"), ("py_intervals", "aggregation")]
NOTES["C14"] = ["Python layer: lists of any length are a base list with the facts of the invariant and the insertions made since; the facts on all elements are instantiated at the elements which are read",
    "bounds of intervals are only compared: real numbers stand for any totally ordered bounds (infinite ones included); NaN bounds are left out",
    "an instant belongs to an interval if start <= instant < end; the lists given to the aggregation are ascending and disjoint (what get_nonoverlapping_intervals gives)",
    "bisect_right and bisect_left of the standard library by their contracts"]
PY["C15"] = [("py_coeff", "combined"), ("py_coeff", "composed_call"), ("py_coeff", "construction"), ("py_coeff", "size"), ("py_sparse", "sparse"), ("py_sparse", "sparse_range"),
             ("py_sparse", "sparse_range_scalar"), ("py_sparse", "sparse_range_constant"), ("py_sparse", "sparse_range_year"), ("py_sparse", "sparse_sets")]
PY["C16"] = [("py_model", "model_eval"), ("py_model", "methods"), ("py_model", "decomposition")]
PY["C17"] = [("py_composed", "composed")]
PY["C18"] = [("py_dipole", "dipole"), ("py_model", "dipole_model"), ("lemmas", "dipole")]
PY["C19"] = [("py_mio", "mio")]
PY["C20"] = [("py_lines", "lines"), ("py_lines", "lines_defaults"), ("py_lines", "lines_model_options"), ("py_lines", "lines_trace_options")]
PY["C24"] += [("py_time", "sunpos_wrappers")]
PY["C25"] = [("py_time", "magnetic_time"), ("lemmas", "dipole")]
NOTES["C11"] += PYSEM; NOTES["C24"] += PYSEM
NOTES["C15"] = PYSEM + ["the members of composed and combined sets are arbitrary coefficient sets with their validity, kind, degrees, whose matrix for each time depends on that time alone; the real is_valid is executed", "sorted, argsort, nonzero, max, min by their contracts (a permutation in ascending order; the selected elements; bounds which are attained); facts on all elements are instantiated at the elements which are read",
    "interp by its contract (C02): the spline through the given nodes; that the nodes are handed over in ascending order, each with its value, is proved", "infinite limits of the members of a composed set stand as real numbers of the order; the pairs of degree and order of a sparse set are distinct, |order| <= degree <= 46338",
    "degree limits: absent or any integer, in the combinations with the ranks of times and the classes listed in the obligations; decompose (C14, C16) and time_scales are left to the bounded layer", "the sum over the members of a combined set is taken in their order, as real numbers"]
NOTES["C16"] = PYSEM + ["parameters left to the model (options of eval) are passed on unchanged", "the coefficients are an arbitrary object with the interface of the coefficients classes (C15)"]
NOTES["C17"] = PYSEM + ["the components are arbitrary models which satisfy the contract of eval (C16); their number is arbitrary (loop invariant: the sum of the results so far)"]
NOTES["C18"] = PYSEM + ["trigonometric functions as the mathematical functions"]
NOTES["C19"] = PYSEM + ["the two models of the primary field and the expansion by contracts element by element in the time, the point and F10.7, sub-solar latitude and longitude", "F10.7 is a scalar or an array of the shape of the points (a scalar time with an array of F10.7 is left out: IndexError in the code)", "conversion of the external coefficients (loader): bounded layer only"]
NOTES["C20"] = PYSEM + ["the model is any object whose eval satisfies the contract of eval (C16): a function of the time, the point and the options, without NaN", "the radius of the model options, which scales the steps, is positive", "a side of the line by its contract (its body is checked against it on the same run)"]
NOTES["C25"] = PYSEM + ["the position of the sun and the dipole by their contracts (C24, C18)"]

def union(*props):
    """the functions under contract of the given properties: module sets are kept apart by source"""
    out = {}
    for p in props:
        for m, s, fns in C[p]:
            l = out.setdefault((m, s), []); l += [f for f in fns if f not in l]
    seen = {}; r = []
    for (m, s), fns in out.items():
        fns = [f for f in fns if (s, f) not in seen]; seen.update({(s, f): 1 for f in fns})
        if fns: r.append((m, s, fns))
    return r
C["C13"] = union(*sorted(C))
NOTES["C13"] = sorted({n for p in C for n in NOTES.get(p, [])}, key=str) + ["obligations of this property: bounds, uninitialised and null reads, integer overflow, conversions to integers, frame, termination, release of the blocks, and the preconditions which bound the accesses of the callee; the others are decided under the functions' own properties"]
import re
SAFEKINDS = {"bounds", "overflow", "f2i", "null", "uninit", "frame", "measure", "term", "extract", "reach", "engine", "vacuity", "alias"}
SAFEPRE = re.compile(r"range|size|ranks|coefficients|series|Legendre (functions|derivatives)$|table|number of|node array|segment inside|a case of the contract")
ALLOC = {"_model_reset", "_model_destroy", "_model_init", "_coefset_reset", "_coefset_destroy", "_coefset_init", "_model_ts_reset", "_model_ts_destroy", "_model_ts_init"}
def keep13(o):
    return o["kind"] in SAFEKINDS or o["kind"] == "pre" and bool(SAFEPRE.search(o["id"].split("#")[0])) or o["kind"] == "post" and o["function"].split("[")[0].split("@")[0] in ALLOC
KEEP = {"C13": keep13}
