#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the tables below (run by hand; the outputs are committed)."""
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PYD = "bittrue/models/python/en_cl_fix_pkg/"
TOP, NAR, WID, TYP, MLI = (PYD + f for f in ("en_cl_fix.py", "narrow_fix.py", "wide_fix.py", "en_cl_fix_types.py", "matlab_interface.py"))
PKG, PRV = "hdl/en_cl_fix_pkg.vhd", "hdl/en_cl_fix_private_pkg.vhd"


def M(*pairs):
    return [{"name": n, "where": w} for n, w in pairs]


P = []


def prop(id, title, statement, over, text, why, files, mech):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement, quantifier={"over": over, "text": text}, why_tests_cant=why,
                  anchors={"files": files, "mechanism": mech}))


prop("C01", "Python result formats hold every result, and are no larger than needed",
     "For every pair of valid operand formats the format the Python model computes for add, subtract, add/subtract, negate, absolute value, multiply, shift, "
     "round and union contains every mathematically exact result of that operation on in-format operands (range and resolution). "
     "For add, subtract, add/subtract, negate, multiply, shift and union no single field of the result format could be one smaller; width, minimum and maximum value and the "
     "wide/narrow decision agree with the format definition [S,I,F].",
     ["inputs", "configurations"], "all formats [S,I,F] with S in {0,1}, any I and F (also negative) and positive width; all shift ranges; all rounding modes",
     "The tests sample a few dozen small formats; formats are unbounded integers and the extreme operands differ per format.",
     [TYP, TOP], M(("FixFormat.for_*", TYP), ("FixFormat.union / width / is_valid", TYP), ("cl_fix_*_fmt, cl_fix_min_value, cl_fix_max_value, cl_fix_is_wide", TOP)))
prop("C02", "VHDL result formats equal the Python result formats",
     "For every pair of valid operand formats the format functions of the VHDL package return exactly the documented format that the Python model returns, for every "
     "operation, rounding mode and shift range. The VHDL width function returns S+I+F.",
     ["inputs", "configurations"], "all formats, rounding modes and shift ranges within the 32-bit integer range of VHDL",
     "The testbenches only check formats through a handful of small configurations.",
     [PKG, TYP], M(("cl_fix_*_fmt, union, cl_fix_width", PKG), ("FixFormat.for_*", TYP)))
prop("C03", "Python rounding: nearest value, ties by mode, exact in both representations",
     "Rounding to fewer fractional bits yields, for every input value and every rounding mode, the mathematically exact neighbour on the coarser grid: truncation is the floor, the other "
     "modes give the nearest value and resolve ties as documented (towards +infinity, -infinity, away from zero, towards zero, even, odd). Rounding to the same or more "
     "fractional bits leaves the value unchanged. The result is the same whichever of the two internal representations (float or arbitrary-precision integer) is used.",
     ["inputs", "configurations"], "all values, all source and target formats, all seven modes, both representations, scalars and arrays",
     "Tests use formats of a few bits and specific patterns; double-precision loss appears only near 53 bits and for particular residues.",
     [NAR, WID, TOP], M(("NarrowFix.round", NAR), ("WideFix.round", WID), ("cl_fix_round", TOP)))
prop("C04", "Rounding is bit-true: VHDL and Python give the same documented result",
     "For every bit pattern, every source and target format and each of the seven rounding modes, the VHDL rounding function returns the two's-complement pattern of the mathematically exact "
     "documented rounding, and the Python model returns that same number for the same value, formats and mode: the two never differ in a bit. "
     "The VHDL result never depends on the index range of the vector that is passed.",
     ["inputs", "configurations"], "all bit vectors, formats and modes",
     "The co-simulation testbenches run a finite set of formats of a few bits; formats, index ranges and bit patterns are unbounded.",
     [PKG, NAR, WID, TOP], M(("cl_fix_round", PKG + ", " + TOP), ("NarrowFix.round", NAR), ("WideFix.round", WID)))
prop("C05", "Python saturation clips, wrapping is modulo, resize composes the two",
     "Saturating to a format returns the nearest value of that format for every input; without saturation the value is wrapped modulo the format's range, preserving its low-order bits. "
     "Resizing is rounding followed by saturation/wrapping for every mode combination, so a value that already lies in the target format and grid is returned unchanged. "
     "Both internal representations give the same values.",
     ["inputs", "configurations"], "all values, all source and target formats, all modes, both representations, scalars and arrays",
     "Tests sample small formats; wrap-around of values close to 2^53, of scalars and of mixed representations is untested.",
     [NAR, WID, TOP], M(("NarrowFix.saturate", NAR), ("WideFix.saturate", WID), ("cl_fix_saturate, cl_fix_resize", TOP)))
prop("C06", "Saturation and resize are bit-true between VHDL and Python",
     "For every bit pattern and every pair of formats the VHDL saturation function clips (saturating modes) or wraps (other modes) exactly as documented, and the resize function equals rounding "
     "followed by saturation, for every combination of modes. The Python functions return the same number for the same value, formats and modes: the two never differ in a bit.",
     ["inputs", "configurations"], "all bit vectors, formats and modes",
     "The co-simulation testbenches run a finite set of formats of a few bits; formats, index ranges and bit patterns are unbounded.",
     [PKG, NAR, WID, TOP], M(("cl_fix_saturate, cl_fix_resize", PKG + ", " + TOP), ("NarrowFix.saturate", NAR), ("WideFix.saturate", WID)))
prop("C07", "Python arithmetic is exact before one final resize",
     "Absolute value, negation, addition, subtraction, selectable add/subtract, shift and multiplication return the mathematically exact result of the operand values, rounded and saturated once into the "
     "requested format. With no result format given, the exact result is returned in the format documented for that operation. This holds for all combinations of narrow and wide operands, "
     "intermediates and results, and element-wise with per-element selection (add/subtract) or shift.",
     ["inputs", "configurations"], "all operand values, formats, result formats, rounding and saturation modes",
     "Tests use small formats; loss of precision needs operands whose intermediate format crosses 53 bits.",
     [TOP, NAR, WID], M(("cl_fix_abs/neg/add/sub/addsub/shift/mult", TOP), ("NarrowFix operators", NAR), ("WideFix operators", WID)))
prop("C08", "Arithmetic is bit-true: VHDL and Python give the same exact result",
     "The VHDL functions for absolute value, negation, addition, subtraction, add/subtract, shift and multiplication return, for every operand bit pattern, format and mode, the bit pattern "
     "of the exact result rounded and saturated once into the result format. With the default result format they use the documented format of the operation. "
     "The Python functions return the same number for the same values, formats and modes: the two never differ in a bit.",
     ["inputs", "configurations"], "all bit vectors, formats, shifts and modes",
     "The co-simulation testbenches run a finite set of formats of a few bits; formats, index ranges and bit patterns are unbounded.",
     [PKG, TOP, NAR, WID], M(("cl_fix_abs/neg/add/sub/addsub/shift/mult", PKG + ", " + TOP), ("NarrowFix operators", NAR), ("WideFix operators", WID)))
prop("C09", "Comparisons and range queries decide on the exact values",
     "In Python and in VHDL, comparing two fixed-point values of arbitrary, different formats yields the truth value of the mathematical comparison of the represented numbers, for every comparison operator. "
     "The range query answers exactly whether the rounded value lies in the target format. In Python both hold for any mixture of the two internal representations.",
     ["inputs", "configurations"], "all values and formats on both sides, all operators and rounding modes",
     "Tests compare values in a few equal-sized formats; mixed representations and wide formats are not covered.",
     [TOP, NAR, WID, PKG], M(("cl_fix_compare, cl_fix_in_range", TOP + ", " + PKG), ("comparison operators", NAR), ("comparison operators", WID)))
prop("C10", "Python conversions from/to real and integer are exact",
     "Converting a real number yields the format's value nearest to it (ties towards +infinity), clipped or checked as requested, for scalars and arrays and in both representations. "
     "Converting from integer and back to integer is the identity on the raw LSB representation, and converting to real returns the exact value whenever a double can represent it.",
     ["inputs", "configurations"], "all doubles, all raw integers, all formats",
     "Tests use small formats and a handful of values; ties, negatives and values near 2^52 need specific inputs.",
     [TOP, NAR, WID], M(("cl_fix_from_real/from_integer/to_integer/to_real", TOP), ("from_real / to_integer", NAR), ("from_real / from_narrowfix / to_real", WID)))
prop("C11", "Conversions are exact, inverse to each other and bit-true with Python",
     "The VHDL conversion from real rounds to the nearest value of the format (ties towards +infinity) and saturates to the format; integer conversions map raw integers to bit patterns and back "
     "unchanged for every value that fits in a 32-bit integer. The conversion to real returns the exact value whenever the format has at most 53 bits. The Python conversions "
     "return the same numbers for the same arguments.",
     ["inputs", "configurations"], "all reals, integers, bit vectors and formats within the 32-bit integer range",
     "The testbenches convert a few small formats only; most conversion functions have a handful of examples.",
     [PKG, TOP, NAR, WID], M(("cl_fix_from_real/to_real/from_integer/to_integer", PKG + ", " + TOP), ("from_real / to_integer", NAR), ("from_real / to_real", WID)))
prop("C12", "Python operations have no side effects and share no memory",
     "No operation modifies an operand, a caller's array, a format object or module state, whatever the representation and mode. An array that an operation returns never shares memory with an "
     "array the caller passed in, and objects built with copying requested are independent of their source, so a later in-place change of one never alters the other.",
     ["inputs", "histories"], "all operations, representations, modes and argument shapes; all later in-place writes",
     "Aliasing is visible only when a test mutates one array and checks the other; the tests check returned values only.",
     [TOP, NAR, WID, TYP], M(("copy parameters and data properties", NAR + ", " + WID), ("cl_fix_* wrappers", TOP)))
prop("C13", "Results are in the documented representation, shape and grid",
     "Every operation that returns fixed-point data returns it in the representation documented for the result format: double precision for formats of at most 53 bits, arbitrary-precision integers for wider ones, "
     "with every element on the grid of that format. The shape of the result is that of the operands (scalars stay scalars, arrays keep their shape), and objects report length and elements "
     "consistently.",
     ["inputs", "configurations"], "all operations, formats on either side of the 53-bit limit, scalars and arrays",
     "Tests compare values (1.0 == 1 holds across representations), so a wrong representation passes them.",
     [TOP, NAR, WID], M(("cl_fix_is_wide dispatch", TOP), ("NarrowFix data dtype", NAR), ("WideFix object dtype", WID)))
prop("C14", "A warning is issued exactly when requested and a value is out of range",
     "In the warning modes, an operation of the Python model or the VHDL package issues a warning if at least one of its rounded values lies outside of the result format, however slightly, and issues none if all values fit (in a conversion from real the given value itself may be judged). "
     "Where an operation selects between addition and subtraction, only the selected results count. In the modes without warning, no warning is ever issued, and the warning never changes the returned value.",
     ["inputs", "configurations"], "all values, formats and saturation modes; all operations with a saturation argument",
     "Tests hardly observe warnings; boundary values (one LSB out of range) need to be hit exactly.",
     [TOP, NAR, WID, PKG], M(("saturate / from_real warnings", NAR + ", " + WID + ", " + PKG), ("cl_fix_* with saturate argument", TOP)))
prop("C15", "Invalid requests are rejected with an error",
     "In the Python model each of the following is refused with an exception and never returns a value: a format whose sign field is not 0/1 or whose I+F is negative; deriving a result format from an operand without any bit; "
     "a shift range with minShift > maxShift; rounding into a result format other than the one cl_fix_round_fmt gives; saturating into a format with a different number of fractional bits; "
     "a narrow object for a format wider than 53 bits and data whose type does not fit the representation of its format; converting real numbers with a mode that does not saturate; "
     "converting integers outside of the result format; packing formats of at most 53 bits, or data of another type, into 64-bit words; and comparing a fixed-point object with a plain array. "
     "The VHDL package reports a failure for the shift range, rounding format, saturation format and real conversion cases.",
     ["inputs"], "all arguments that violate a documented precondition",
     "Tests check at most one failing example per function.",
     [TOP, NAR, WID, TYP, PKG], M(("assertions and raises", TOP + ", " + NAR + ", " + WID + ", " + TYP + ", " + PKG)))
prop("C16", "Packing data into 64-bit words for MATLAB is lossless",
     "Converting wide data to unsigned 64-bit words and back returns the identical values for every format and every value, and the packed words hold the two's-complement representation of the value "
     "in little-endian word order. The number of words is the smallest that holds the format's width. The MATLAB side splits and recombines the same words.",
     ["inputs", "configurations"], "all values and formats of any width",
     "Tests check few widths; sign extension and word boundaries depend on the width modulo 64.",
     [WID, MLI, "bittrue/models/matlab/wide.m"], M(("WideFix.to_uint64_array / from_uint64_array", WID), ("to_uint64_array / from_uint64_array", MLI)))
prop("C17", "VHDL round/saturate/resize entities: same function, fixed latency, no loss",
     "The pipelined VHDL components output for each accepted input exactly the value of the corresponding package function, in order, after a latency that depends only on the generics. "
     "Valid and metadata travel through the same number of register stages as the data, and reset clears valid in every register stage.",
     ["schedules", "configurations", "histories"], "all clock-by-clock input sequences, stall patterns and generic combinations",
     "The testbench uses one random valid pattern and few generic combinations.",
     ["hdl/en_cl_fix_round.vhd", "hdl/en_cl_fix_saturate.vhd", "hdl/en_cl_fix_resize.vhd"],
     M(("register stages", "hdl/en_cl_fix_round.vhd"), ("register stages", "hdl/en_cl_fix_saturate.vhd"), ("composition", "hdl/en_cl_fix_resize.vhd")))
prop("C18", "Mode names, codes and format strings agree across Python, VHDL and MATLAB",
     "The rounding and saturation modes have the same names and the same numeric codes in all three languages, and converting a mode or a format to a string and back is the identity. "
     "The text form of a mode is its name, and a text that is no mode name is rejected. The text form of a format produced by either of Python and VHDL is read by VHDL as that same format, whatever the signs and digit counts of its fields. "
     "The Python repr of a format is the constructor call of that format. "
     "VHDL reads mode names in any letter case, and formats with any number of blanks in front of the integer and fractional bits.",
     ["inputs", "configurations"], "all modes; all formats",
     "Each language is tested on its own, if at all; agreement between languages is not.",
     [TYP, PKG, "bittrue/models/matlab/cl_fix_constants.m", TOP], M(("enumerations", TYP), ("to_string / from_string", PKG), ("constants", "bittrue/models/matlab/cl_fix_constants.m")))
prop("C19", "MATLAB wrappers forward every argument to the same Python operation",
     "Each MATLAB function calls the Python operation of the same name with its arguments in the documented order, converts every data argument with that argument's own format and converts the result with the result format. "
     "Row and column vectors keep their orientation, and wide data are split into and recombined from 64-bit words without loss.",
     ["inputs", "configurations"], "all wrapper functions and argument counts",
     "There is no MATLAB in the test environment.",
     ["bittrue/models/matlab/*.m"], M(("cl_fix_* wrappers", "bittrue/models/matlab"), ("wide.mat2py / wide.py2mat", "bittrue/models/matlab/wide.m")))
prop("C20", "All RTL code is VHDL-93 compliant",
     "Every RTL source file analyses without error as VHDL-93, in dependency order, and uses only IEEE standard libraries. No VHDL-2008-only construct is used outside of testbenches.",
     ["configurations"], "all RTL files, all design units",
     "The test flow compiles RTL as VHDL-2008 with two of the four supported simulators, so a violation is not seen.",
     ["hdl/*.vhd"], M(("RTL sources", "hdl"), ("documented promise", "README.md")))
prop("C21", "Each co-simulation script runs at most once, whatever the thread schedule",
     "However many simulator threads request a co-simulation concurrently, its run function is executed at most once (a run that fails with an exception does not count: that request fails and a later one tries again), "
     "a request returns only after that run is complete, and it is not executed at all when disabled. "
     "Scripts of the same name in different directories never pick up each other's code, and the module search path entry added for loading a script is removed again, also when loading fails.",
     ["schedules", "fault_sequences"], "all interleavings of concurrent requests; failure of the script at any point",
     "No unit test exercises threads.",
     ["sim/cosim_runner.py", "lib/en_tb/sim/cosim_runner.py"], M(("double-checked flag under lock", "sim/cosim_runner.py"), ("global path lock", "sim/cosim_runner.py")))
prop("C22", "VHDL operations do not depend on vector index ranges and check widths",
     "Every VHDL operation interprets an operand by its position from the most significant bit only: ascending, descending and offset index ranges give the same result. "
     "An operand whose length differs from its format's width is reported and never processed silently.",
     ["inputs"], "all index ranges and directions; all lengths",
     "Testbenches only use (n-1 downto 0) vectors of the right length.",
     [PKG, PRV], M(("range normalisation", PKG), ("choose / helper functions", PRV)))
prop("C23", "Text files of test data are written and read without loss",
     "Writing test data or fixed-point formats to a line or text file with the simulation library and reading them back returns exactly the same values, for every element type and text base "
     "(binary, decimal, hexadecimal), with and without header lines; the text of each value is its number in that base, one value per line, appended to what the line or file already holds. "
     "Reading a file of several numbers per line returns them in file order, however they are delimited; line and column counts are those of the file. "
     "Format files written by the Python model are read with the same formats. Flatten / Unflatten are inverse (element 0 lowest) and the array comparison passes exactly for equal arrays.",
     ["inputs", "configurations"], "all data values, element types and text bases; numbers of any sign; header / skip settings",
     "One testbench writes a few random arrays; sign, line-append, multi-column, empty-file and width-dependent cases of 11 overloaded element types are not exercised.",
     ["lib/en_tb/hdl/*.vhd", "tb/util/en_cl_fix_fileio_pkg.vhd", TOP],
     M(("write_file, read_file, read, write", "lib/en_tb/hdl/en_tb_fileio_text_pkg.vhd"), ("dwrite, dread, bin_to_dec", "lib/en_tb/hdl/en_tb_fileio_text_private_pkg.vhd"),
       ("Flatten, Unflatten, check_equal", "lib/en_tb/hdl/en_tb_base_pkg.vhd"), ("cl_fix_write_file, cl_fix_read_format_file", "tb/util/en_cl_fix_fileio_pkg.vhd"), ("cl_fix_write_formats", TOP)))
prop("C24", "Zero and random data have the requested shape and lie in the format",
     "Zero data are exactly zero and random data always lie inside the format's range and on its grid, and every value of the format can occur, for every format and shape including scalars. "
     "Both come in the documented representation of the format.",
     ["inputs", "configurations"], "all formats and shapes; all random draws",
     "Random data are sampled; an off-by-one bound shows up with probability 2^-width.",
     [TOP], M(("cl_fix_random, cl_fix_zeros", TOP)))
prop("C25", "Random test data are uniformly distributed",
     "Random data are distributed uniformly over all values of the format: every value is equally likely, and the elements of an array are drawn independently of each other, for every format and shape.",
     ["inputs", "histories"], "all formats; all draws of the generator", "A finite sample cannot settle a distribution, least of all for formats with 2^54 or more values.", [TOP], M(("cl_fix_random", TOP)))
prop("C26", "Arithmetic on narrow formats is fast",
     "Operations whose formats have at most 53 bits are processed by vectorised double-precision arithmetic, so that run time per element is constant.",
     ["inputs"], "all array sizes", "Timing is not tested.", [NAR], M(("NarrowFix", NAR)))
prop("C27", "VHDL simulation and synthesis give the same results in every supported tool",
     "Simulating or synthesising the RTL with any supported tool yields the results of the Python model.",
     ["configurations"], "all simulators and synthesis tools", "Only the open-source simulator is available.", ["hdl/*.vhd"], M(("RTL", "hdl")))

# ------------------------------------------------------------------------------------------------------------------------
sys.path.insert(0, os.path.join(ROOT, "sa"))
PYT = "abstract interpretation of the Python source (symbolic formats, relational numeric domain, trace partitioning)"
NOTE_PY = ("Sound for the modelled numpy/IEEE semantics over all formats with |I|,|F| <= 400 and all values; obligations that the domain cannot decide are listed as UNDECIDED "
           "and not counted as discharged. Trusted: the abstract interpreter itself.")
CLAIM = {k: (PYT, "proof", NOTE_PY) for k in ("C01", "C03", "C05", "C07", "C09", "C10", "C12", "C13", "C14", "C15", "C16", "C24", "C25")}
for k in ("C09", "C14", "C15"):
    CLAIM[k] = ("abstract interpretation of the Python and VHDL sources (symbolic formats, relational numeric domain, trace partitioning)",
                "proof", NOTE_PY.replace("numpy/IEEE", "numpy/IEEE and VHDL / numeric_std"))
CLAIM["C25"] = (PYT, "proof", NOTE_PY + " Given that the library generators (random.randrange, numpy randint, ...) are uniform and independent; shapes up to one dimension.")
CLAIM["C16"] = (PYT + "; symbolic evaluation of the MATLAB syntax tree for wide.m", "proof", NOTE_PY)
CLAIM.update(json.load(open(os.path.join(ROOT, "tools", "claim_extra.json"))))
CLAIM["C23"] = ("abstract interpretation of the VHDL sources on an in-memory file model (symbolic data bits and text digits, trace partitioning)", "proof",
                "All values of the listed widths (1..8, 33 and more bits), texts with up to 3 lines and 4 columns of symbolic digits; decimal text beyond 5 bits (thorough: 8) at listed values including both "
                "ends of the range. Undecided obligations are listed as UNDECIDED and not counted as discharged. Trusted: the VHDL front end and abstract interpreter in sa/, its model of std.textio.")
NA = {
    "C26": "Run time is a quantity of the platform; no static analysis in reach bounds it.",
    "C27": "Depends on external tools' behaviour, which is not in this source; the RTL's own semantics are decided by C02, C04, C06, C08 and C11.",
}
NYB = "Static check not built yet in this revision (planned: see DESIGN.md)."


def main():
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps(p) + "\n")
    ids = [p["id"] for p in P]
    checks = []
    for i in ids:
        if i in CLAIM:
            t, l, n = CLAIM[i]
            checks.append(dict(property=i, quick_cmd="python3 check.py %s quick" % i, thorough_cmd="python3 check.py %s thorough" % i, technique=t, level=l, level_note=n))
    na = [dict(property=i, reason=NA.get(i, NYB)) for i in ids if i not in CLAIM]
    m = dict(version=1, setup_cmd="python3 -m py_compile check.py sa/*.py", checks=checks, not_applicable=na)
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")
    print(len(ids), "properties,", len(checks), "claimed")


main()
