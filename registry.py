# Which harness units decide which property. Keys of a unit: see check.py.
ASAN = ["-fsanitize=address", "-fno-omit-frame-pointer"]
GENERIC = ["CMT_DISABLE_CLANG_EXT"]  # the back end used with compilers other than clang
CHECKS = {}


def check(pid, units, level="model_checking", bounds="", assumptions=(), technique=None):
    CHECKS[pid] = {"units": units, "level": level, "bounds": bounds, "assumptions": list(assumptions)}
    if technique:
        CHECKS[pid]["technique"] = technique


DFT = ["src/dft/dft.cpp", "src/dft/dft-impl-f32.cpp", "src/dft/dft-impl-f64.cpp", "src/dft/fft-impl-f32.cpp",
       "src/dft/fft-impl-f64.cpp"]


def per_arch(name, src, repo=(), archs=("sse2", "avx2"), thorough=("sse41", "avx", "avx512"), **kw):
    us = []
    for a in list(archs) + list(thorough):
        u = dict(name="%s_%s" % (name, a), src=list(src), repo=list(repo), arch=a, san=ASAN, **kw)
        if a in thorough:
            u["thorough_only"] = True
        us.append(u)
    return us


check("C07", per_arch("fir", ["c07_fir.cpp"], ["src/dsp/fir.cpp"]),
      bounds="13 tap counts 1..33, call histories of depth 3 (thorough 4) over chunk lengths 0..40, every mode per call")

check("C08", per_arch("iir", ["c08_iir.cpp"], ["src/dsp/biquad.cpp"]),
      bounds="14 section counts 1..64, call histories of depth 3 (thorough 4) over chunk lengths 0..33, every mode per call")

check("C10", per_arch("delay", ["c10_delay.cpp"]),
      bounds="circular buffers of 1..7 elements with every start cursor and every operation sequence of depth 3 (thorough "
             "4); 12 delays and 20 moving-sum lengths with call histories of depth 2 (3)")

check("C01", per_arch("dft", ["c01_dft.cpp"], DFT, repo_flags=["-O2"]),
      bounds="every size 1..1024 (thorough 1..3000) and about 60 (100) larger ones up to 2^17 (2^21), both precisions, all "
             "16 combinations of direction, placement, scratch and alignment on one plan; all basis vectors for sizes 1..72 "
             "(1..300)",
      assumptions=["The transform is a linear map computed without data-dependent branches: equality on a basis (small "
                   "sizes) or on one generic dense vector (larger sizes) stands for all inputs of that size."])
check("C02", per_arch("rdft", ["c02_rdft.cpp"], DFT, repo_flags=["-O2"]),
      bounds="every even size 2..1024 (thorough 2..3000) and about 40 (60) larger ones, both precisions and layouts, all 16 "
             "combinations of direction, placement, scratch and alignment; all basis vectors for sizes up to 80 (300)",
      assumptions=["The transform is a linear map computed without data-dependent branches."])
check("C04", per_arch("dct", ["c04_dct.cpp"], DFT, repo_flags=["-O2"]),
      bounds="every length 1..700 (thorough 1..2200), both precisions, all 16 combinations of direction, placement, scratch "
             "and alignment; all basis vectors for lengths 1..80 (1..300)",
      assumptions=["The transform is a linear map computed without data-dependent branches."])
check("C03", per_arch("mddft", ["c03_mddft.cpp"], DFT, repo_flags=["-O2"]),
      bounds="every shape of 1..5 axes with axis lengths from the listed sets (2 axes: all pairs from 1..18 and 31,32,37,64; "
             "thorough 1..40), static and dynamic shapes, both precisions, complex and real, every direction, placement, "
             "scratch and call form; all basis arrays of shapes up to 16 (36) elements",
      assumptions=["The transform is a linear map computed without data-dependent branches."])
CONV = DFT + ["src/dft/convolution-impl.cpp"]
check("C05", per_arch("conv", ["c05_convfilter.cpp"], CONV, repo_flags=["-O2"]),
      bounds="impulse lengths 1..5 blocks for block sizes 1,2,4,8,16 (and non-powers), call histories of depth 3 (real; "
             "thorough 4) or 2 (complex; 3) over process/in-place/expression/reset/set_data with 11 chunk lengths around "
             "the block boundaries; realistic partitions at depth 2")
check("C06", per_arch("convolve", ["c06_convolve.cpp"], CONV, repo_flags=["-O2"]),
      bounds="every pair of lengths 1..40 (thorough 1..100) and larger pairs, four element types; every pair of basis "
             "elements for lengths up to 9 (20)",
      assumptions=["The operations are bilinear and free of data-dependent branches."])
check("C09", per_arch("src", ["c09_src.cpp"], ["src/dsp/sample_rate_conversion.cpp"], archs=("avx2",),
                      thorough=("sse2", "sse41", "avx", "avx512"), repo_flags=["-O2"]),
      bounds="every ratio with factors 1..6 (thorough 1..9) plus 14 larger ones at draft quality, 8 ratios at the other four "
             "qualities; all sequences of depth 2-3 (4) of pull, pull from an oversized buffer, push and skip with block sizes "
             "around 0, 1, the ratio and the filter depth; the same after streams of 2^31, 2^32 and 2^33 input, output and "
             "intermediate samples for 8 ratios",
      assumptions=["The converter is linear in the signal: one generic integer-valued signal stands for all signals."])
SCHED = dict(flags=["-fsanitize=thread", "-mllvm", "-tsan-instrument-func-entry-exit=0"],
             link=["-Wl,--wrap=malloc", "-Wl,--wrap=free"], san=[])
MODEL = ["The memory model explored: stores are appended to their location's modification order when they execute (no "
         "speculative reordering of a store before an earlier load of the same thread), loads may return any older value "
         "coherence allows, release/acquire operations and fences transfer views."]


def sched_unit(name, src, **kw):
    u = dict(name=name, src=[src, ("sched.cpp", ["-fno-sanitize=all"])], arch=kw.pop("arch", "sse2"), **SCHED)
    u["link"] = u["link"] + kw.pop("link", [])
    u.update(kw)
    return u


check("C11", [sched_unit("queue", "c11_queue.cpp")],
      bounds="capacities 1..3 (thorough 1..4): every script of 2 producer and 2 consumer calls (one item or the whole "
             "capacity; thorough 1..3 items and every start offset), partial or not, under every interleaving and every "
             "permitted stale read; 1+1 calls for capacities 1..4; 3+3 calls with at most 2 (thorough 3) preemptions; every sequential history of depth 3-4 (4-5) for capacities 1..6, counters also just below 2^64",
      assumptions=MODEL,
      technique="stateless model checking of the compiled code: all interleavings and all values the memory model allows "
                "relaxed loads to return, with vector-clock race detection")

RW = ["-fsanitize=kernel-address", "-mllvm", "-asan-instrumentation-with-call-threshold=0", "-mllvm", "-asan-stack=0",
      "-mllvm", "-asan-globals=0", "-mllvm", "-asan-kernel-mem-intrinsic-prefix=1"]
check("C12", [sched_unit("cache", "c12_cache.cpp", repo=DFT, repo_flags=["-fno-sanitize=all", "-O2"])] +
      [dict(name="share_" + a, src=["c12_share.cpp", ("c12_calls.cpp", RW)], repo=DFT, repo_flags=RW, arch=a,
            link=["-Wl,--wrap=malloc"], link_san=[], thorough_only=a not in ("avx2",)) for a in ("avx2", "sse2", "avx512")],
      bounds="cache: two threads with 1 call each of every kind, unbounded; 2 calls each and three threads with at most 2 "
             "(thorough 5) preemptions; sharing: 91 plans per precision, two executions, every direction, placement and "
             "scratch mode, switched at every access (40-400 evenly spread ones where an execution has more; thorough 4000)",
      assumptions=MODEL + ["Sharing: executions whose writes all go to memory of their own commute, so the interleavings "
                           "explored stand for all others; the accesses made do not depend on the data values."])

CAPI = ["src/capi/capi.cpp"]
check("C13", [dict(name="memory", src=["c13_memory.cpp"], repo=CAPI, arch="avx2", san=ASAN, repo_flags=["-O0"],
                   defs=["KFR_ENABLE_CAPI_BUILD=1"],
                   link=["-Wl,--wrap=malloc", "-Wl,--wrap=free", "-no-pie", "-Wl,--unresolved-symbols=ignore-all"]),
              sched_unit("refs", "c13_refs.cpp")],
      bounds="every alignment 1..32768 with every alignment-relative position the system allocator may return (thorough: "
             "all; quick: the first and last 256 bytes and powers of two), 16 sizes, five interfaces; unsatisfiable sizes "
             "within 200 of SIZE_MAX and of every power of two above 2^40; every history of depth 4 (thorough 5) over two "
             "blocks with each malloc call failing in turn; owners: 2 threads unbounded, 3 threads with at most 2 (4) "
             "preemptions",
      assumptions=MODEL + ["Alignments are powers of two."])

check("C14", per_arch("tensor", ["c14_tensor.cpp"], leaks=1),
      bounds="one axis of 0..6 (thorough 0..8) elements with every start, stop (-n-2..n+2 or absent) and step (+-1,2,3,n+3, 0), and "
             "sliced twice with 6x6x4 ranges each; 13 shapes of two axes and 2 (4) of three with 13 selections per axis; every "
             "reshape of 96 views; every history of depth 4 (5) of 7 assignments over 3 tensors")

EXPR = [("c15_expr.cpp", ["-DPART=%d" % p]) for p in (0, 1, 3)] + \
       [("c15_expr.cpp", ["-DPART=2", "-DLEAFSEL=%d" % l]) for l in (0, 2, 3, 4)]
ONE = dict(archs=("avx2",), thorough=("sse2", "sse41", "avx", "avx512"))
check("C15", per_arch("expr", EXPR, **ONE) + per_arch("nd", ["c15_nd.cpp"], **ONE),
      bounds="one axis: 13 sizes 0..40 and infinite; every leaf, every operation on a leaf and every pair of operations nested, "
             "read at every index with widths 1..16 and evaluated over every sub-range start x 10 lengths with 5 widths; 2 and 3 "
             "axes: sides {1,2,3,5,9} and {1,2,3}, every combinator with all its parameters, read at every index along every "
             "axis with widths 1..8; every reshape between factorisations, read and written")

check("C16", per_arch("bcast", [("c16_broadcast.cpp", ["-DPART=%d" % p]) for p in range(4)], **ONE),
      bounds="operands of 1..3 (thorough 4) axes with every side in {1,2,3,5(,9)} and every combination of unit, missing and "
             "mismatching axes, dense, strided, transposed and reversed storage, two and three operands, scalars and "
             "compile-time shapes, evaluated over every axis with widths 0(default),1,2,4; assignment over every sub-box")

check("C17", per_arch("transpose", ["c17_transpose.cpp"]),
      bounds="11 element types of 1..64 bytes; every shape up to 48x48 (thorough 100x100), 5x5x5 (8x8x8), 3^4 (4^4), empty "
             "ones included, 30 long shapes up to 70001x9, in place and not, two alignments; channels 0..7 (19) x frames "
             "0..19 (65) x four interfaces x five sample types")

check("C18", per_arch("reduce", [("c18_reduce.cpp", ["-DPART=%d" % p]) for p in range(5)], **ONE),
      bounds="12 element types; every length 0..259 (thorough 0..999) x 3 offsets x 4 kinds of sequence x several data sets; every "
             "position of an extreme value in every length up to 72 (200); 2- and 3-axis shapes with sides {0,1,2,3,5,8,9,17} and "
             "{0,1,2,3,5}, dense, transposed, strided, computed; horizontal functions for 17 lane counts; histograms of 9 types, 9 "
             "bin counts, every length up to 40 (140), type limits included")

check("C19", per_arch("int", [("c19_int.cpp", ["-DPART=%d" % p]) for p in range(8)], archs=("avx2", "avx512"),
                      thorough=("sse2", "sse41", "avx")) +
      per_arch("intgen", [("c19_int.cpp", ["-DPART=%d" % p]) for p in range(8)], archs=(), thorough=("sse2", "sse41", "avx2", "avx512"),
               defs=GENERIC),
      bounds="8 integer types x 8 lane counts; 55 operations on every pair of values (8 bits: all 65536; wider: the values around "
             "each byte boundary and patterns) in several lanes each; every mask up to 10 lanes and every mask with at most two "
             "odd lanes beyond; every conversion between the 10 element types; every shift and rotation amount")

def lanes(parts):
    return [("c20_lanes.cpp", ["-DPART=%d" % p, "-DHALF=%d" % h]) for p in parts for h in (0, 1)] + \
           [("c20_lanes.cpp", ["-DPART=8", "-DHALF=0"])]


check("C20", per_arch("lanes", lanes((0, 1, 2, 3, 4)), **ONE) +
      per_arch("lanes2", lanes((5, 6, 7)), archs=(), thorough=("sse2", "avx2", "avx512")) +
      per_arch("lanesgen", lanes((1, 2)), archs=("avx2",), thorough=("sse2", "sse41", "avx512"),
               defs=GENERIC) +
      per_arch("lanesgenall", lanes((0, 3, 4)), archs=(), thorough=("sse2", "sse41", "avx2", "avx512"),
               defs=GENERIC),
      bounds="lane counts 1,2,3,4,5,6,7,8,12,16,32 of i8, u16, f32, f64, complex<f32> (thorough: also i32, u64, complex<f64>); the "
             "back end used with other compilers with u16 and f32 (thorough: all of them); every named operation with every admissible rotation, slice, group size and "
             "transposition side, two label sets; 17 offsets, 9 strides, every index vector up to 4 lanes, for loads and stores")

check("C22", per_arch("convert", ["c22_convert.cpp"], **ONE),
      bounds="every 8- and 16-bit sample and a quarter (thorough: all) of the 24-bit ones, 32- and 64-bit ones with at most two runs of "
             "bits and around each half step of a narrower format, to each of the seven formats and back; single-precision values "
             "of every exponent with 12 (18) upper mantissa bits, the three values around each half step of 8, 16 and 24 bits; "
             "runs of increasing values; buffers of 0..40 (140) samples, 1..6 (17) channels, all 49 format pairs, every interface",
      assumptions=["Values that are not numbers are outside the property; one below negative full scale may be kept or saturated."])

SORT = [("c21_sort.cpp", ["-DPART=%d" % p]) for p in range(6)]
check("C21", per_arch("sort", SORT, **ONE) + per_arch("sortgen", SORT, archs=(), thorough=("sse2", "avx2", "avx512"), defs=GENERIC),
      bounds="ten element types; 4, 8, 16, 32 (8-bit: 64) lanes: every 0-1 input up to 16 lanes and every 0-1 input of at most "
             "4 (thorough 6; 32 floats: all 2^32) runs beyond, with the extreme values of the type as 0 and 1; every permutation up "
             "to 8 lanes and an affine family beyond; every tuple of the extreme values up to 4 (8) lanes, beyond all pairs in all "
             "pairs of lanes",
      assumptions=["For more than 16 lanes, inputs other than those listed are covered through the zero-one principle, which "
                   "holds for networks of compare-exchange steps."])

NPY = [("c23_npy.cpp", ["-DPART=%d" % p]) for p in range(4)]
check("C23", per_arch("npy", NPY, **ONE),
      bounds="13 element types, ranks 1-4 (sides up to 33 / 5 / 3 / 2), four memory layouts when saving, versions 1-3, both orders, both byte "
             "orders; 2880 header layouts per rank; every truncation length; every position of the header with every other byte value, "
             "removed or doubled; every sequence of up to 4 (5) of 16 header tokens in four contexts; every triple of 18 dimensions "
             "including overflowing ones; a failure of every read call; every type loaded as every other",
      assumptions=["Headers that Python would read but NumPy never writes (double quotes, text after the dictionary, unknown or repeated "
                   "keys) may be refused; if loaded, they must be loaded right. Empty arrays may be refused, as the code documents."])


WAVFILE = ["src/io/audiofile-impl.cpp"]
check("C24", per_arch("wav", ["c24_wav.cpp"], WAVFILE, **ONE),
      bounds="5 writer types x 7 file types x 1, 2, 3, 8 channels x RIFF and Wave64; every sequence of up to 3 (4) write calls of 0, 1, 2, 5, 33 "
             "frames with or without a partial frame, or planar; every file read back as each of 5 types with 7 (9) call patterns and planar; "
             "1440 foreign file layouts per type; 10001-frame files in three piece sizes; a failure of every call to the target in three ways",
      assumptions=["Sample values are multiples of 1/128 of full scale plus the extremes: exactness of the conversion of every value is C22's."])


check("C25", per_arch("streams", ["c25_streams.cpp"], WAVFILE, **ONE),
      bounds="12 WAV, 12 FLAC (with and without seek table) and 1 MP3 stream x 5 sample types: every sequence of 3 (i16 WAV 4; thorough 5 / 4 / 4) reads and "
             "seeks; every truncation length; every source call failing in three ways; every header byte with every value and others with 8 "
             "changes, four session scripts; file streams: every sequence of 3 (4) operations for 3 element sizes and 4 file lengths, in all modes",
      assumptions=["A failing source keeps failing (end of file or error), as C streams do.",
                   "MP3 has no redundancy: for damaged MP3 data only memory safety, termination and bounded counts are required."])


check("C26", per_arch("random", ["c26_random.cpp"], **ONE) + per_arch("randomgen", ["c26_random.cpp"], archs=(), thorough=("sse2", "avx2", "avx512"), defs=GENERIC),
      bounds="1296 seeds, every sequence of 2 (3) of 20 kinds of draw against a restatement of the generator; range-limited numbers for every raw "
             "value of 8 (all ranges) and 16 bits, 2^19 (all 2^23) mantissas and 2^20 f64 mantissas in 16 ranges, boundary raw values of 32 and 64 bits "
             "in 66 ranges; normal numbers for 2^19 (2^23) values of either uniform number, the law over a 256 x 256 grid; expressions over own and "
             "shared states: every history of 4 (5) reads and copies",
      assumptions=["Raw values are produced by inverting one step of the generator.",
                   "Equal seeds give equal numbers for draws of equal sizes, as the documentation says."])



check("C33", per_arch("fraction", ["c33_fraction.cpp"], **ONE),
      bounds="every pair of fractions with terms up to 30 (60) in absolute value and every pair with terms among 121 values up to 2^63 - 1 (quick: a 25th of those pairs) (numerators and "
             "denominators around powers of two), in every operation whose unreduced terms fit 64 bits; every sequence of 4 (5) of 40 compound operations",
      assumptions=["Results whose unreduced terms do not fit 64 bits, and division by zero, are outside the property."])



check("C29", per_arch("meters", ["c29_meters.cpp"], ["src/dsp/biquad.cpp"], **ONE),
      bounds="Goertzel: 0..19 (39) samples of four signals at 11 frequencies, alone in every chopping of the first 8 (12) samples and 2, 3, 4, 8 at once; loudness: "
             "six configurations (1-6 channels, all six packet rates), every history of 2-4 (4-5) packets of five contents, stops, starts, resets and queries "
             "after 0, one window less and more than the momentary and one more than the short-term window of packets; all programmes of three "
             "parts; the weighting at 12 frequencies against the published filter",
      assumptions=["Before the first packet there is silence; a reset takes effect with the next packet, as the code defers it."])





check("C36", per_arch("units", ["c36_units.cpp"], **ONE),
      bounds="2-5 channels x 0..39 (79) frames x every cut into two blocks; all 2 x 2 matrices with entries -3..3 x 0..19 (39) frames; conversions for every "
             "binade x 640 mantissas of both signs and +-312 dB (f64 +-1250 dB) in steps of 1/64 (1/16) dB, scalar, in vectors of 4 and 7 and in expressions; "
             "the ends of the scales in every lane; weighting curves at 440 frequencies",
      assumptions=["Results outside the normal range of the type are outside the property, except for the listed ends of the scales."])





check("C32", per_arch("containers", ["c32_containers.cpp"], **ONE),
      bounds="two objects each: every sequence of 4 (5) of 22 operations on small buffers (capacities 1, 3, 16), 4 (6) of 10 on inline vectors, 4 (5) of 32 on "
             "dynamic vectors, 5 (6) of 18 on functions, 4 (5) of 16 on expression handles of several lengths read in every width 1-64 from every offset; placeholders "
             "in 8 forms, up to 3 substitutions of 3 kinds; two-dimensional and output handles of every size up to 7 x 10 / 39 (79)",
      assumptions=["Small buffers hold trivially copyable elements, as their raw storage requires.",
                   "A moved-from small buffer or handle is only destroyed or assigned to; copies of a function or handle share what they hold."])





ELEM = dict(opt="-O2")
check("C34", per_arch("elementary", ["c34_elementary.cpp"], archs=("sse2", "avx2"), thorough=("sse41", "avx", "avx512"), **ELEM) +
      per_arch("elementarygen", ["c34_elementary.cpp"], archs=(), thorough=("sse2", "avx2"), defs=GENERIC, **ELEM),
      bounds="27 functions of one argument: every 61st (thorough: every) single-precision argument, for double precision every exponent x 24 (256) mantissas "
             "and their neighbours; every function in every lane of 1, 2, 3, 4, 5, 8, 16 and 32; 85 special values; rounding of every 29th (every) single-precision "
             "number and of all half integers' neighbours; 12 functions of two arguments on all pairs of 61 values; 18 complex functions on 196 arguments; five interpolations",
      assumptions=["Accuracy is measured in rounding errors of the result and of the argument; the bounds are the accuracy of the implementation (at most 2 units for most functions, "
                   "25 / 180 for roots, 60 / 90 for gamma, 1e-6 for the fast approximations).",
                   "Trigonometric functions are specified up to 2^24 (2^42) radians with fused multiply-add, 8192 (2^26) without.",
                   "Exact halves may round either way, as the instruction sets do."])



check("C31", per_arch("generators", ["c31_generators.cpp"], **ONE) +
      per_arch("generatorsgen", ["c31_generators.cpp"], archs=(), thorough=("sse2", "avx2"), defs=GENERIC),
      bounds="six recurrence generators x 18 parameter pairs x f32, f64: every sequence of 4 (6) reads of 8 widths with a restart in the middle, runs of 400 (2000) "
             "values for every first block up to 8 (19) and every block size up to 24 (40) through three kinds of assignment; counters of five types at 11 indices in 8 widths "
             "and in two dimensions; every linspace of up to 40 (100) values; 14 oscillator shapes at every 64th of a turn over 64 turns; sweeps of up to 80 (300) values",
      assumptions=["The recurrences may drift by a few rounding errors per value read; the bound grows with the index, not with the pattern of reads.",
                   "Shapes given in radians are not judged where they jump."])

check("C27", [dict(name="capi_" + a, src=["c27_capi.cpp"], repo=CONV + ["src/dsp/fir.cpp", "src/dsp/biquad.cpp"] + CAPI, arch=a, san=ASAN, thorough_only=a != "avx2",
                   repo_flags=["-O1"], defs=["KFR_ENABLE_CAPI_BUILD=1"], link=["-Wl,--wrap=malloc", "-Wl,--wrap=free"]) for a in ("avx2", "sse2")],
      bounds="complex plans of 1..130 (600) points, real of every even 2..132 (600) in both packings, shapes of 1-4 dimensions, DCT up to 80 (400); 21 FIR, "
             "IIR and convolution filters x every history of 3 (5) calls of 9 kinds; every call with null pointers or refused arguments; blocks of 40 (200) sizes "
             "with every pair of 8 alignments, grown and shrunk, shared or not; failure of every allocation "
             "while each of 11 kinds of object is created and of the scratch memory of 9 calls",
      assumptions=["The library under test is built from the repository's sources with ASan; the shipped shared object differs only in flags."])

check("C30", per_arch("windows", ["c30_windows.cpp"], **ONE) +
      per_arch("windowsgen", ["c30_windows.cpp"], archs=(), thorough=("sse2", "avx2"), defs=GENERIC),
      bounds="17 windows x f32, f64 x symmetric, periodic x up to five parameters: every length 2..201 (1501), rendered, through a handle, and applied in two pieces; "
             "reads of 7 widths at every position for lengths up to 41 (71); the named functions for lengths up to 201 (801); low-, high-, band-pass and band-stop "
             "designs of every length up to 100 (400) x up to ten bands x four windows x normalised or not",
      assumptions=["High-pass and band-stop filters are specified for odd lengths: no even length can pass the highest frequency.",
                   "Windows of a single value are not specified."])

check("C35", per_arch("filters", ["c35_filters.cpp"], **ONE) +
      per_arch("filtersgen", ["c35_filters.cpp"], archs=(), thorough=("sse2", "avx2"), defs=GENERIC),
      bounds="8 kinds of section at 46 (206) frequencies x six Q x eight gains, each judged at 64 frequencies; four prototypes of every order 1..24 x four bands x five "
             "positions x four ripples x three sample rates, judged at 41 frequencies; every subset of 7 poles or pairs and 6 zeros or pairs in three orders split into sections",
      assumptions=["Responses are judged within the uncertainty that rounding of the coefficients leaves, computed per frequency; points where it exceeds a tenth are not judged."])

NOT_APPLICABLE = {}
