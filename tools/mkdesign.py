#!/usr/bin/env python3
"""DESIGN.md from the descriptions below, the registry (bounds, assumptions), the findings and the seeded changes."""
import json, os, re, sys
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, V)
import registry

D = {
"C01": "Root: one size (and precision). Choices: direction, in place or not, scratch given or not, aligned or not, all on one plan object, so one call's leftovers meet the next call. Oracle: a double/long double DFT by definition (direct sum for small sizes, an independent mixed Bluestein reference validated against the direct sum for larger ones), tolerance growing with log n only. Basis vectors make it a statement about every input, since the transform is linear. Tests only try a handful of sizes with one random vector.",
"C02": "As C01 for the real plan in both packed layouts; the oracle is the definition on the real vector, forward and inverse separately (so that compensating mistakes do not cancel).",
"C03": "Root: one shape. Choices: static or dynamic rank, complex or real, direction, placement, scratch, call form (bool flag, tag, two precisions). Oracle: the one-dimensional definition applied along each axis. Every basis array of the small shapes.",
"C04": "Root: one length; choices as in C01. Oracle: the DCT-II / DCT-III sums by definition.",
"C05": "Stateful object: the tree of all call histories (process, in place, as an expression, reset, new impulse response) with chunk lengths around the block boundaries. Oracle: the direct sum over everything fed since the last reset, with the semantics of set_data written in the reference.",
"C06": "All pairs of lengths; all pairs of basis elements (bilinearity). Oracle: the double sum with conjugation where the definition has one.",
"C07": "All call histories over chunk lengths that straddle the delay line, each call as function, in place, expression, with reset and copies of states. Oracle: the direct sum over the whole stream.",
"C08": "As C07 for cascades of biquads: oracle is the serial difference equation. Chunks shorter than the cascade are included, because the vectorised cascade keeps samples in flight.",
"C09": "Root: a ratio and a quality. All sequences of pull / push / skip. Oracle: the converter run once over the whole stream, the ideal band-limited signal, and exact sample bookkeeping; streams beyond 2^31 / 2^32 / 2^33 samples are reached by skipping.",
"C10": "All operation sequences on ring buffers, delays and moving sums against std::deque.",
"C11": "The unmodified queue under our scheduler: every interleaving of its atomic operations *and every stale value the memory model lets a relaxed load return*. Monitors: order, no loss, no duplicate, data races on the payload, and sequential histories against a list, with the counters just below wrap-around.",
"C12": "(a) the plan cache: get/clear calls of several threads under the scheduler, monitors: same plan returned, no race, no lost entry, no use after free. (b) sharing a plan: every memory access of an execution is intercepted and another execution of the same plan is switched in at that access; results must equal the undisturbed ones.",
"C13": "Environment choice: the system allocator (wrapped) may return every position relative to the alignment, or fail. All histories over two blocks, all interfaces (template, C, smart pointer), unsatisfiable sizes. Reference counts under the scheduler.",
"C14": "All slices, slices of slices, reshapes and assignments of tensors; oracle: Python's slice rules on index lists; ASan and leak checking for lifetime.",
"C15": "Every expression tree up to two operations over every leaf, read at every index with every width and evaluated over every sub-range; oracle: the tree evaluated element by element at width 1 by an independent interpreter, canaries around every output.",
"C16": "Every combination of shapes and storage orders; oracle: NumPy's broadcasting rule (restated), including which combinations must be refused.",
"C17": "Every small shape, every element size; labels are the element's coordinates, so the comparison decides the permutation for all contents.",
"C18": "Every length, offset and position of the extreme element, for every reduction; oracle: sequential fold in long double / exact integers.",
"C19": "All operand pairs for 8 bits, boundary pairs for wider types, in several lanes; oracle: scalar arithmetic in 128 bits. Also the non-clang back end (CMT_DISABLE_CLANG_EXT).",
"C20": "Label vectors through every permutation, load and store, every parameter; a lane's label tells where it came from, two label sets exclude coincidences; canaries and guard bytes around memory.",
"C21": "Zero-one principle: all 0-1 inputs decide a sorting network; plus all permutations up to 8 lanes and extreme values.",
"C22": "All 8/16/24-bit values and a structured grid of the wider ones through all 49 pairs; oracle: exact rational scaling and rounding in 128-bit integers.",
"C23": "Generation: all layouts and types saved and parsed by an independent reader, and all header variants loaded. Faults: each truncation, byte change and failing read. ASan.",
"C24": "All histories of write calls; the file is parsed by an independent RIFF/W64 reader and read back through the library; each failing call of the target (write, seek) as a choice.",
"C25": "All histories of read/seek/tell on valid files against an array and a position; all truncations, byte changes and failing source calls, with bounded time, bounded counts and ASan as monitors.",
"C26": "The generator restated; every history of draws; ranges for every raw value by inverting one step of the generator; expressions over own and shared states.",
"C27": "Every plan and filter of the C interface against the C++ library's results, all call histories, null and refused arguments, and the failure of each allocation one by one: the call must report an error, leak nothing and work afterwards.",
"C29": "Goertzel: all choppings; oracle: the Fourier sum. Loudness: all histories of packets, stops, starts, resets and queries against BS.1770/EBU R128 restated in double.",
"C30": "Every window and design of every length up to the bound, rendered, sliced, read in every vector width and through a handle, against the formulas in long double; the tolerance is the change of the formula within 12 rounding errors of the abscissa.",
"C31": "Every pattern of read widths on every generator; oracle: the formula at the absolute index.",
"C32": "All operation sequences on two objects of each container or wrapper, against std::vector / std::function / a list; live object counting, ASan.",
"C33": "All pairs of fractions and all sequences of compound operations; oracle: 128-bit rationals.",
"C34": "All (quick: every 61st) 2^32 single-precision arguments per function against double/long double libm with a tolerance in rounding errors; structured grids for double precision and for functions of two arguments; special values by table; every lane of every width.",
"C35": "Every section, and every classical filter of every order and band split into sections, judged by its response on a frequency grid against the formula of the analogue prototype (powers, Chebyshev and reverse Bessel polynomials in long double) and by the stability triangle; all subsets of poles and zeros split into sections. The family applies to the discrete choices (kind, order, band, subset, order of lists); frequencies, Q and gains are grids.",
"C36": "All small matrices, channel counts, lengths and cuts; conversions over all binades; weighting curves against the formulas of IEC 61672.",
}
NOTES = {
"C01": "", 
}
missed = json.load(open(os.path.join(V, "tools", "seed_notes.json")))
fixed = {}
for l in open(os.path.join(V, "KNOWN_FINDINGS.txt")):
    m = re.match(r"(fixed|known): property=(C\d\d) (.*)", l)
    if m: fixed.setdefault(m[2], []).append((m[1], m[3].strip()))
seeds = {}
where = {d: s for s in ("seeded", "seeded_more") if os.path.isdir(os.path.join(V, s)) for d in os.listdir(os.path.join(V, s))}
for d in sorted(where):
    m = json.load(open(os.path.join(V, where[d], d, "meta.json")))
    seeds.setdefault(m["property"], []).append((d, m))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
o = [open(os.path.join(V, "tools", "design_head.md")).read().rstrip(), ""]
cost = json.load(open(os.path.join(V, "tools", "cost.json")))
for p in props:
    i = p["id"]; c = registry.CHECKS[i]
    o += ["## %s %s" % (i, p["title"]), "", D[i], "", "*Bounds:* " + c["bounds"] + "."]
    if c["assumptions"]: o += ["", "*Assumptions:* " + " ".join(a if a.endswith(".") else a + "." for a in c["assumptions"])]
    if i in cost: o += ["", "*Cost (quick):* " + cost[i]]
    if i in fixed:
        o += ["", "*Defects found:*", ""] + ["- %s%s" % ("recorded: " if k == "known" else "repaired in ", t) for k, t in fixed[i]]
    if i in seeds:
        o += ["", "*Seeded changes:*", ""] + ["- `%s` (%s): %s" % (d, m["needs"], missed.get(d, "caught")) for d, m in seeds[i]]
    o += [""]
open(os.path.join(V, "DESIGN.md"), "w").write("\n".join(o))
