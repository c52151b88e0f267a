"""Writes properties.jsonl and MANIFEST.json from one table (run by hand after editing; the outputs are committed)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PYD = "bittrue/models/python/en_cl_fix_pkg/"
PKG, PRIV = "hdl/en_cl_fix_pkg.vhd", "hdl/en_cl_fix_private_pkg.vhd"
NARROW, WIDE, TOP, TYPES = PYD + "narrow_fix.py", PYD + "wide_fix.py", PYD + "en_cl_fix.py", PYD + "en_cl_fix_types.py"
PY = [TOP, NARROW, WIDE, TYPES]
ENUM = "bounded exhaustive enumeration of inputs x formats x modes on the real code against an exact integer reference model"
P = []


def prop(pid, title, statement, over, qtext, why, files, mech, observe, technique=None, note=None, state=(), na=None):
    P.append(dict(pid=pid, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech, observe=observe,
                  technique=technique or ENUM, note=note, state=state, na=na))


BOUND = ("Every value in small formats and a deterministic boundary alphabet in wide ones is executed on the real implementation; "
         "complete within the stated bounds, silent about formats beyond them. ")

prop("N01", "Python rounding is exact in all seven modes at any width",
     "Reducing (or extending) the fractional bits of Python data yields, for every value and every rounding mode, exactly the number the mode's definition prescribes (floor, or nearest with the documented tie rule), in a format that is large enough for it, however many bits are removed. "
     "This holds for data of 53 bits and below, for wide data, and when the operation crosses from one representation to the other.",
     ["inputs", "configurations"], "all input formats, all values, all result resolutions, all seven modes",
     "The tests compare a few formats with hand-written tables; ties, 53-bit mantissa limits and cuts longer than the word are never all reached.",
     PY, [("rounding of float-backed data", NARROW), ("rounding of integer-backed data", WIDE), ("dispatch by width", TOP)], ["cl_fix_round"],
     note=BOUND + "Oracle: floor division on Python integers.")
prop("N02", "Python saturation and wrapping are exact; warnings iff out of range",
     "Fitting Python data into a format with the same fractional bits returns each in-range value unchanged, clips out-of-range values to the nearest bound in the saturating modes and otherwise wraps them modulo 2^width in two's complement, for scalars and arrays of every width. "
     "The two warning modes issue a warning if and only if at least one value does not fit; the other modes never warn.",
     ["inputs", "configurations"], "all pairs of formats with equal F, all values, four saturation modes, scalar and array data",
     "Tests sample a handful of formats; wrap of far-out-of-range values, unsigned/signed changes and the 53/54-bit frontier are not enumerated.",
     PY, [("saturation", NARROW), ("saturation", WIDE)], ["cl_fix_saturate", "issued warnings"],
     note=BOUND + "Oracle: clip / modulo on Python integers.")
prop("N03", "Python resize is round-then-saturate; in-range query agrees with it",
     "Resizing Python data equals rounding to the target resolution followed by saturating or wrapping into the target format, applied exactly once each, for every pair of formats and all 28 mode combinations. "
     "The in-range query is true for exactly the values that this rounding brings into the target's range.",
     ["inputs", "configurations"], "all pairs of formats, all values, 7 x 4 modes, both representations and all crossings between them",
     "The suite checks single examples per mode; the composition at width frontiers and the query's agreement with resize need every value.",
     PY, [("composition of rounding and saturation", TOP), ("in-range query", TOP)], ["cl_fix_resize", "cl_fix_in_range", "issued warnings"], note=BOUND)
prop("N04", "Python arithmetic is exact, then quantised once",
     "Addition, subtraction, add/subtract, multiplication, negation, magnitude and shifting of Python data produce the mathematically exact result quantised exactly once into the requested format with the requested modes, for every mix of operand formats, signedness and widths. "
     "Without a requested format the exact result is returned in the documented full-precision format and no warning is issued.",
     ["inputs", "configurations"], "all operand format pairs, all operand values, result formats and modes; scalar and per-element shifts and flags",
     "The tests check arithmetic on random samples of one format per operation; double rounding, lost bits beyond 2^53 and mixed-width operands need enumeration.",
     PY, [("arithmetic through full-precision intermediates", TOP), ("narrow arithmetic", NARROW), ("wide arithmetic", WIDE)],
     ["cl_fix_add", "cl_fix_sub", "cl_fix_addsub", "cl_fix_mult", "cl_fix_neg", "cl_fix_abs", "cl_fix_shift"],
     note=BOUND + "Warnings of add/subtract are not judged (both alternatives are evaluated).")
prop("N05", "Python result formats are sufficient and minimal for every operand",
     "The format computed for the result of an operation (add, sub, add/sub, multiply, negate, magnitude, shift, round, union) can hold the exact result of every pair of operand values, and no format with fewer integer or fractional bits could. "
     "Formats outside the supported domain are refused, and format objects compare and print by value.",
     ["configurations", "inputs"], "all operand format pairs (each decided for all operand values by its exact extreme values)",
     "format_tests sweep a few bits; negative I or F, one-bit operands and very wide formats are where the growth rules have special cases.",
     [TYPES, TOP], [("growth rules", TYPES)], ["cl_fix_*_fmt", "FixFormat"],
     note="Interval extremes decide all operand values at once; the interval oracle is itself validated by enumerating all operands of small formats.")
prop("N06", "Python real/integer conversions are exact and round-trip",
     "Converting a real number to fixed point yields the half-up rounded value, saturated to the format, with a warning exactly when the real number lies outside the range and warnings are enabled; converting back yields the nearest double. "
     "Integer conversions reinterpret the raw number losslessly, refuse values that do not fit, and both kinds of round trip are the identity wherever the target can represent the value.",
     ["inputs", "configurations"], "all formats, all real numbers around every representable point, tie and bound, all raw integers",
     "Tests convert a few decimals; off-by-one-ulp doubles at ties, 53-bit data and wide formats are not covered.",
     PY, [("real conversion", NARROW), ("real conversion", WIDE), ("dispatch", TOP)], ["cl_fix_from_real", "cl_fix_to_real", "cl_fix_from_integer", "cl_fix_to_integer", "cl_fix_max_value", "cl_fix_min_value", "cl_fix_zeros", "cl_fix_random"],
     note=BOUND + "Oracle: rational arithmetic. Infinities, NaN and scaled magnitudes beyond 2^1000 are outside the domain.")
prop("N07", "Narrow and wide number classes implement the same arithmetic",
     "The float-backed and the integer-backed fixed-point classes give the same values, formats, lengths and comparison results for every operation whose operands both can represent, and both agree with exact arithmetic. Copies are independent of the original, and the text form of an object shows its format and its values.",
     ["inputs", "configurations"], "all pairs of small formats and frontier widths, all operands, operators, comparisons and constructors of both classes",
     "Each class has separate example tests; agreement between them over all operands is never checked.",
     [NARROW, WIDE], [("operator overloads", NARROW), ("operator overloads", WIDE)], ["NarrowFix", "WideFix"], note=BOUND)
prop("N08", "Python operations are elementwise, pure and history-independent",
     "Every operation treats each element of an array independently and preserves its shape, for every memory layout (strided, transposed, broadcast, zero-dimensional, scalar), never modifies its arguments or returns data sharing memory in a way that lets a later write change an earlier result or input. "
     "The answer of a call does not depend on the calls made before it, and importing the package or calling it leaves the process (warning filters, numerical error handling, print options, random state, output streams, directory, environment) as it was.",
     ["inputs", "histories"], "array layouts x operations x widths; all call sequences up to the bound",
     "Tests use one-dimensional fresh arrays and never look at the inputs again.",
     PY, [("functional results", TOP), ("copying constructors", WIDE)], ["all cl_fix_* functions"],
     technique="exhaustive enumeration of array layouts and of all call sequences up to a depth on the real code",
     note="Layouts and call sequences are enumerated over a fixed alphabet of operations.")
prop("N09", "Packing wide data into 64-bit words is lossless",
     "Wide data converted to arrays of unsigned 64-bit words (the bridge to MATLAB) carries exactly the two's complement bits of each value, least significant word first, and converting back restores value, format and shape; the caller's data is left untouched.",
     ["inputs", "configurations"], "all widths up to the bound, both signs, all boundary values, scalar to multi-dimensional data",
     "One test converts one width; partial top words, sign extension and multi-dimensional data are not enumerated.",
     [WIDE, PYD + "matlab_interface.py"], [("word packing", WIDE), ("bridge functions", PYD + "matlab_interface.py")], ["to_uint64_array", "from_uint64_array"], note=BOUND)

HN = "Runs the real VHDL under GHDL 4.1 (trusted) and compares every result bit. " + BOUND
prop("H01", "VHDL rounding is exact in all seven modes at any width",
     "Rounding a VHDL value yields, for every input, mode and result resolution, exactly the number the mode's definition prescribes, in the documented result format, whatever the operand's index range or direction, without aborting the simulation. "
     "With the format check disabled the same number is returned in any format that can hold it.",
     ["inputs", "configurations"], "all formats, all values, all resolutions, seven modes, index ranges ascending, descending and offset",
     "The testbench replays stimuli of a few small formats; long cuts, unusual index ranges and wide vectors are not reached.",
     [PKG, PRIV], [("offset-then-truncate rounding", PKG)], ["cl_fix_round"], note=HN)
prop("H02", "VHDL saturation, wrapping, resize and in-range are exact; warnings iff needed",
     "Saturating or resizing a VHDL value gives the rounded value if it fits, the nearest bound in saturating modes and the two's complement wrap otherwise, for every pair of formats and mode combination, and the in-range query is true for exactly the values that fit after rounding. "
     "In the warning modes each value that does not fit is reported and no other is; omitted modes default to truncation and wrap-with-warning.",
     ["inputs", "configurations"], "all pairs of formats, all values, 7 x 4 modes; each warning attributed to a single value",
     "Testbenches ignore warnings and sample formats; which single value warns is never checked.",
     [PKG, PRIV], [("saturation and comparison", PKG), ("alignment without rounding", PKG)], ["cl_fix_saturate", "cl_fix_resize", "cl_fix_in_range", "assertion warnings"], note=HN)
prop("H03", "VHDL arithmetic is exact, then quantised once",
     "VHDL addition, subtraction, add/subtract, multiplication, negation, magnitude and shift return the mathematically exact result quantised exactly once into the requested format and modes (or exactly, in the full-precision format, when none is requested), for every operand pair, signedness mix, width and index range. "
     "Warnings are raised exactly for the results that do not fit.",
     ["inputs", "configurations"], "all operand format pairs, all operand values, derived result formats, all modes",
     "Co-simulation covers a few small formats with one or two modes each.",
     [PKG, PRIV], [("arithmetic through full-precision intermediates", PKG)], ["cl_fix_add", "cl_fix_sub", "cl_fix_addsub", "cl_fix_mult", "cl_fix_neg", "cl_fix_abs", "cl_fix_shift"], note=HN)
prop("H04", "VHDL result formats are sufficient and minimal; pipelining advice consistent",
     "The VHDL format functions return, for every operand format pair, the smallest format that holds every exact result (negation and magnitude always signed), matching the documented rules for rounding and shifting. "
     "The recommended number of pipeline stages is zero exactly when the selected rounding or saturation needs no logic, and a resize recommends the sum of its two steps.",
     ["configurations", "inputs"], "all operand format pairs within the bound, wide and negative-bit formats, all modes",
     "No test calls the VHDL format functions over a sweep of formats.",
     [PKG], [("growth rules", PKG), ("pipelining rules", PKG)], ["cl_fix_*_fmt", "cl_fix_recommended_pipelining"], note="Runs the real VHDL functions; exact interval extremes decide all operands of a format pair at once.")
prop("H05", "VHDL real/integer conversions are exact and round-trip",
     "Converting a real to a VHDL fixed-point value gives the half-up rounded value, saturated to the format's bounds, with a warning exactly when the real is out of range and warnings are enabled, at any width; converting back gives the exact real whenever one exists. "
     "Raw integer conversion is lossless wherever the VHDL integer type can hold the value, and the round trips are identities.",
     ["inputs", "configurations"], "all formats, reals around every representable point, tie and bound; raw integers",
     "The testbench compares a few decimals in small formats; chunk boundaries at 30, 60 and 90 bits and reals one ulp from a tie are not reached.",
     [PKG], [("30-bit chunked conversion", PKG)], ["cl_fix_from_real", "cl_fix_to_real", "cl_fix_from_integer", "cl_fix_to_integer"], note=HN)
prop("H06", "VHDL comparisons order values numerically",
     "Comparing two VHDL values with any of the six relations gives the numerically correct answer for every pair of formats (signed, unsigned, different binary points and widths), and the sign bit, largest and smallest value of a format are what its definition says.",
     ["inputs", "configurations"], "all operand pairs of all pairs of small formats; equal and adjacent values across wide formats",
     "The testbench samples one format pair at a time with the same signedness patterns.",
     [PKG], [("comparison in a common format", PKG)], ["cl_fix_compare", "cl_fix_sign", "cl_fix_max_value", "cl_fix_min_value"], note=HN)
prop("H07", "VHDL text forms are faithful and parse back",
     "The text printed for a value shows its bits with the binary point in the right place (implicit bits in parentheses), and the text of every format, rounding mode and saturation mode parses back to the same thing, with optional spaces in formats and in any letter case for modes.",
     ["inputs", "configurations"], "all values of small formats incl. negative I or F; all formats within the bound; all modes and casings",
     "Only a few literal strings are tested.",
     [PKG, PRIV], [("printing and parsing", PKG)], ["to_string", "cl_fix_format_from_string", "cl_fix_round_from_string", "cl_fix_saturate_from_string"], note=HN)


def load_extra():
    g = dict(globals())
    p = os.path.join(V, "tools", "gen_extra.py")
    if os.path.exists(p):
        exec(compile(open(p).read(), p, "exec"), g)


def main():
    load_extra()
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for q in P:
            a = {"files": q["files"], "state": [dict(name=n, meaning=m, where=w) for n, m, w in q["state"]],
                 "mechanism": [dict(name=n, where=w) for n, w in q["mech"]], "observe_at": q["observe"], "hook_needed": None}
            assert len(q["title"]) <= 80, q["title"]
            f.write(json.dumps({"id": q["pid"], "title": q["title"], "statement": q["statement"],
                                "quantifier": {"over": q["over"], "text": q["qtext"]}, "why_tests_cant": q["why"], "anchors": a}) + "\n")
    m = {"version": 1, "setup_cmd": "/opt/venv/bin/python tools/setup.py", "checks": [], "not_applicable": [],
         "notes": "Checks run on the repository's own interpreter (/opt/venv) and GHDL; every check builds from /repo's working tree in a scratch directory. No hooks are needed in /repo."}
    for q in P:
        if q["na"]:
            m["not_applicable"].append({"property": q["pid"], "reason": q["na"]})
            continue
        m["checks"].append({"property": q["pid"], "quick_cmd": "/opt/venv/bin/python check.py %s" % q["pid"],
                            "thorough_cmd": "VERIF_TIER=thorough /opt/venv/bin/python check.py %s" % q["pid"],
                            "evidence_file": "evidence/%s.json" % q["pid"], "technique": q["technique"], "level": "model_checking", "level_note": q["note"]})
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
