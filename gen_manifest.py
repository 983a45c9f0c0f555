#!/usr/bin/env python3
"""Write checks.json and MANIFEST.json from the table below."""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
COMMON = [
    "the f64 libm of the sandbox is accurate to a few ulp",
    "tolerances cover rounding and re-association, not a change of formula",
]
REF = "independent reference model written from the published definition"
T = {
 "C01": dict(
  technique="AddressSanitizer, ThreadSanitizer, MemorySanitizer, Miri, guard pages and std precondition checks over hostile workloads",
  rule="One case is one call (or one round of concurrent calls) through the safe API under a memory/race/UB monitor: a slice cast, planar SIMD conversion, bulk conversion, fixed-shape SPD operation, spectrum operation on well- and malformed spectra, out-of-range index. Identified by operation, lengths and placement against the inaccessible pages; non-trivial when the slice is non-empty.",
  note="Every unsafe site is driven through its safe callers at all lengths up to 70 (and selected ones to 65537) with input ending and starting at PROT_NONE pages, in the scalar build with debug assertions, the AVX build, and under ASan, MSan, TSan and Miri (tree borrows, Sse2/scalar SIMD widths only). A violation on a path, length or interleaving not executed is not seen; 8 (quick) racing processes under TSan, 2 under Miri.",
  ass=["sanitizer and Miri reports are trusted", "Miri does not execute the AVX2 width of the planar conversion; ASan, MSan and guard pages do"]),
 "C02": dict(technique="runtime oracle over enumerated and generated conversions", rule="One case is one colour conversion; all 256 8-bit and 65536 16-bit codes, values at and around every rounding boundary, extremes, random colours. Identified by the bits of the input; all are non-trivial.", note="All codes of both widths are enumerated in both float types, all rounding boundaries +-2 ulp; other inputs are sampled.", ass=["ties at a rounding boundary may go either way within 1e-3 of a code for f32 16-bit"]),
 "C03": dict(technique="runtime oracle against published curves, monotonicity and round-trip monitors", rule="One case is a colour (three channels) put through every curve and built-in space in f32 or f64, an increasing run of values, or a user-built space. Non-trivial when a channel is neither 0 nor 1.", note="Dense around the joins of every curve, negative, HDR and extreme values; sampled, not enumerated.", ass=[]),
 "C04": dict(technique="runtime oracle: matrix identities on generated colour spaces", rule="One case is one colour space (built-in, from random non-degenerate primaries and white, or with explicit matrices). Identified by its chromaticities; all are non-trivial.", note="Sampled primaries and whites including imaginary primaries and primaries with zero z; tolerance scales with the conditioning of the primaries.", ass=[]),
 "C05": dict(technique="runtime oracle: published CAT formula and group laws", rule="One case is one pair (triple) of whites, one method and one argument form. Non-trivial when the whites differ.", note="Sampled whites incl. different luminance; tolerances from the 4-7 digit published inverse matrices.", ass=[]),
 "C06": dict(technique="runtime oracle: independent composition and inversion laws", rule="One case is one colour through one pair of spaces / reference white. Non-trivial when the colour is not black.", note="All ordered pairs of built-in spaces, random user spaces, whites and colours; sampled.", ass=[]),
 "C07": dict(technique="runtime differential monitor: bulk versus one-by-one", rule="One case is one bulk call; identified by its lengths and SIMD width. Non-trivial when at least one pixel is converted.", note="All lengths to 139, those around powers of two, random to 100000, all SIMD widths, NaN/inf pixels; others unseen.", ass=[]),
 "C08": dict(technique="runtime oracle: linear algebra in double-double/f64 and inverse laws", rule="One case is one matrix (pair). All zero patterns and pivot orders are enumerated, other matrices generated; matrices that are too ill-conditioned for the precision are skipped and counted as trivial.", note="Enumerated zero/sign patterns plus sampled entries of many scales.", ass=[]),
 "C09": dict(technique="runtime oracle against the CIE 1976 definition, round-trip monitor", rule="One case is one colour and white, or one Lab colour. All are non-trivial.", note="Dense around the join of the two parts; sampled.", ass=[]),
 "C10": dict(technique="runtime oracle against an independent CIEDE2000 and the Sharma data", rule="One case is one pair of Lab colours. Non-trivial when they differ.", note="Sharma's pairs, a grid of all hue pairs, opposite and achromatic pairs, random; sampled. Where the formula itself jumps (opposite hues) either side is accepted.", ass=[]),
 "C11": dict(technique="runtime oracle: round-trip and scaling laws", rule="One case is one chromaticity or colour. Non-trivial when the luminance is not zero.", note="Sampled.", ass=[]),
 "C12": dict(technique="runtime invariant monitor on every constructed spectrum", rule="One case is one constructed spectrum, identified by its samples.", note="All constructors, operation chains, irregular gap at every position for all small sizes; sampled otherwise.", ass=["gaps equal to within 1e-9 nm count as uniform; gaps that differ by more than 1e-6 nm as varying; between, either is accepted"]),
 "C13": dict(technique="runtime oracle: independent Sprague/linear resampler", rule="One case is one resampling, identified by the two shapes and the data. Non-trivial when samples are added or removed.", note="Sampled spectra (uniform and varying) and shapes incl. small sizes.", ass=[]),
 "C14": dict(technique="runtime oracle: independent E308/E2022 summation, linearity and scale laws", rule="One case is one spectrum, illuminant and observer. Non-trivial when the spectrum is not zero.", note="All sampling classes (1, 5, 10 on/off grid, other, varying), random illuminants and observers; sampled.", ass=[]),
 "C15": dict(technique="runtime differential oracle: scalar, AVX and f64 dot product", rule="One case is one 40-sample spectrum. Non-trivial when not zero.", note="Each sample alone, random and extreme spectra; sampled.", ass=[]),
 "C16": dict(technique="runtime oracle: linear combination of the published basis", rule="One case is one colour. Non-trivial when not black.", note="Sampled colours incl. out of gamut.", ass=[]),
 "C17": dict(technique="runtime oracle: CIE daylight locus", rule="One case is one temperature in f32 or f64; all are non-trivial.", note="Every integer temperature, dense at 4000, 7000 and 25000 K to the ulp, non-finite and random others.", ass=[]),
 "C18": dict(technique="runtime oracle: component-wise arithmetic", rule="One case is one set of operands through all operators of one type.", note="Sampled operands incl. zero, non-finite and extreme.", ass=[]),
 "C19": dict(technique="runtime snapshot monitor of all tables in fresh racing processes, cross-consistency oracle", rule="One case is one table entry, one cross-check, or one fresh process whose threads race for the first access.", note="All entries are compared; the expected values are a snapshot of the tables as published with the crate plus mutual consistency.", ass=["the snapshot in harness/golden/tables.txt is the published data (checked for mutual consistency)"]),
 "C20": dict(technique="offline checker over recorded call logs: histories, orders, threads, processes", rule="One case is one call of one public computation in some history, identified by operation and arguments; non-trivial unless it always panics.", note="Calls replayed in shuffled orders, 2-8 threads and fresh processes, with arguments one number apart; sampled schedules.", ass=[]),
 "C21": dict(technique="runtime oracle: weighted mean, linearity", rule="One case is one spectrum; non-trivial when not zero.", note="Sampled grids and values.", ass=[]),
 "C22": dict(technique="runtime differential oracle: f32 versus f64", rule="One case is one input through the f32 and f64 versions of a computation.", note="Sampled; tolerances scale with conditioning.", ass=[]),
 "C23": dict(technique="runtime oracle: polynomial exactness", rule="One case is one linspace or coefficient table. Non-trivial when it has at least one value.", note="All small step counts and intervals; sampled ranges.", ass=[]),
}
json.dump({k: dict(rule=v["rule"], assumptions=v["ass"] + COMMON) for k, v in T.items()}, open(os.path.join(HERE, "checks.json"), "w"), indent=1)
M = dict(version=1, setup_cmd="python3 setup.py", checks=[
    dict(property=k, quick_cmd="python3 check.py %s --tier quick" % k, thorough_cmd="python3 check.py %s --tier thorough" % k,
         evidence_file="evidence/%s.json" % k, technique=v["technique"], level="exploration",
         level_note=v["note"]) for k, v in T.items()], not_applicable=[],
    notes="Black-box monitors: no hooks in /repo. See DESIGN.md.")
json.dump(M, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
