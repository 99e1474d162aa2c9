"""Which obligations decide which property."""
import c_py
import c_arith
import c_misc
import c_rest
import c_vhdl
import c_ent
import c_cosim
import c_std
import c_matlab
import c_text
import c_tb

TB = ["the abstract interpreter of /verif/sa (parsing by the Python ast module; transfer functions of the Python / numpy subset)",
      "numpy element-wise semantics: an operation on an array is the operation on each element",
      "IEEE-754 double arithmetic with round-half-even; exponents stay within the normal range"]
AS = ["|I|, |F| <= 400 for every format field (bound of the symbolic parameter space)",
      "arrays are represented by one or two arbitrary elements (one and two dimensions) or by a scalar; empty arrays are outside of the claim",
      "data handed to an operation is in the documented representation of its format"]
PY = ("Abstract interpretation of the Python sources with a relational numeric domain: format fields are symbolic parameters "
      "constrained by a polyhedron, data are sums of products of symbols and powers of two with interval bounds, and the trace partition "
      "is split wherever a comparison is not decided. On every resulting cell the abstract result must equal the documented result.")
RU = "on every cell of the trace partition the abstract result equals the documented result"

TBV = ["the VHDL front end and abstract interpreter of /verif/sa (vhdl.py, vabs.py)",
       "IEEE 1076-1993 semantics of the used subset; ieee.numeric_std resize / to_integer / arithmetic operators; 32-bit integer",
       "IEEE-754 double arithmetic of type real with round-half-even; exponents stay within the normal range"]
ASV = ["|I|, |F| <= 400 for every format field (bound of the symbolic parameter space); widths are symbolic",
       "vector elements are '0' or '1' (metavalues are outside of the claim)"]
VH = ("Abstract interpretation of the VHDL packages: format fields, vector lengths and index bounds are symbolic parameters constrained by a polyhedron, "
      "bit vectors are segments of symbolic width whose content is an integer expression modulo 2^width, and the trace partition is split wherever a "
      "condition is not decided. Index, length, subtype-range and assertion checks end a path in a failure. On every cell the abstract result must equal "
      "the documented result.")
PV = PY + " The VHDL functions with the same guarantee are analysed with: " + VH

BT = (VH + " The Python functions of the same name are held to the same documented result, so that both sides agree with each other: " + PY)


def S(title, obs, rule=RU, level="proof", assumptions=AS, trusted=TB, explanation=PY):
    return dict(title=title, obs=obs, rule=rule, level=level, assumptions=assumptions, trusted=trusted, explanation=explanation)


SPEC = {
    "C01": S("Python format functions give sufficient (and minimal) formats", c_py.ob_c01,
             "the result format contains the exact result range and grid; a field that could be smaller is reported for add/sub/mult/shift/union"),
    "C03": S("Python rounding", c_py.ob_c03),
    "C05": S("Python saturation, wrapping and resize", lambda t: c_py.ob_c05(t) + c_arith.ob_c05r(t)),
    "C07": S("Python arithmetic", c_arith.ob_c07),
    "C09": S("Python comparisons and range queries", lambda t: c_misc.ob_c09(t) + c_vhdl.ob_v09(t), trusted=TB + TBV[:2], assumptions=AS + ASV, explanation=PV),
    "C10": S("Python conversions", c_misc.ob_c10),
    "C12": S("no side effects, no shared memory", c_rest.ob_c12,
             "no write reaches an object or array that belongs to the caller or to the module; no returned array shares a caller's buffer"),
    "C13": S("representation, shape and grid of results", c_rest.ob_c13,
             "dtype, shape and grid of the abstract result are those of the documented representation of the result format"),
    "C14": S("warnings exactly when requested and needed", lambda t: c_rest.ob_c14(t) + c_vhdl.ob_v14(t),
             "a warning event lies on the path if and only if warning is requested and a value is outside of the result range",
             trusted=TB + TBV[:2], assumptions=AS + ASV, explanation=PV),
    "C15": S("invalid requests are rejected", lambda t: c_rest.ob_c15(t) + c_vhdl.ob_v15(t), "every path of an invalid request ends in an exception (VHDL: a failure)",
             trusted=TB + TBV[:2], assumptions=AS + ASV, explanation=PV),
    "C16": S("uint64 packing is lossless", lambda t: c_misc.ob_c16(t) + c_matlab.ob_wide(),
             trusted=TB + ["the MATLAB front end and symbolic evaluator of /verif/sa (matlab.py, c_matlab.py)"],
             assumptions=AS + ["wide.m is evaluated on listed format shapes with symbolic words"]),
    "C24": S("zeros and random data lie in the format", c_misc.ob_c24,
             "value bounds of the generated data are exactly those of the format and every value is on its grid"),
    "C25": S("random data are uniformly distributed", c_misc.ob_c25,
             "every element is a one-to-one image of one integer drawn uniformly from as many numbers as the format has values; no two elements share a draw",
             trusted=TB + ["numpy's randint and Python's random integers are uniform and independent"]),
    "C02": S("VHDL format functions", c_vhdl.ob_c02, "on every cell the VHDL record equals the format computed by the Python sources (same cell), and contains the exact result range",
             trusted=TBV + TB[:1], assumptions=ASV, explanation=VH),
    "C04": S("bit-true rounding (VHDL and Python)", lambda t: c_vhdl.ob_c04(t) + c_py.ob_c03(t), trusted=TBV + TB, assumptions=ASV + AS[1:], explanation=BT),
    "C06": S("bit-true saturation, resize, comparison and range query (VHDL and Python)",
             lambda t: c_vhdl.ob_c06(t) + c_py.ob_c05(t) + c_arith.ob_c05r(t), trusted=TBV + TB, assumptions=ASV + AS[1:], explanation=BT),
    "C08": S("bit-true arithmetic (VHDL and Python)", lambda t: c_vhdl.ob_c08(t) + c_arith.ob_c07(t), trusted=TBV + TB, assumptions=ASV + AS[1:], explanation=BT),
    "C11": S("bit-true conversions (VHDL and Python)", lambda t: c_vhdl.ob_c11(t) + c_misc.ob_c10(t), trusted=TBV + TB,
             assumptions=ASV + AS[1:] + ["VHDL cl_fix_from_real: result formats of up to 120 bits (thorough: 240); cl_fix_to_real: up to 53 bits"], explanation=BT),
    "C22": S("VHDL operations: index ranges and operand widths", c_vhdl.ob_c22,
             "with operands of symbolic ascending / descending index range and offset the result equals the documented result; every path with an operand of another length ends in a failure",
             trusted=TBV, assumptions=ASV, explanation=VH),
    "C17": S("VHDL pipeline entities", c_ent.ob_c17,
             "the outputs after the documented latency, evaluated backwards through drivers, registers and instances from an unknown register state, equal the package function / metadata / gated valid of the input item",
             trusted=TBV + ["VHDL signal semantics of clocked processes and concurrent statements; elaboration of generate statements and instances"],
             assumptions=ASV + ["one clock, rising_edge; rst synchronous"],
             explanation="Symbolic elaboration of the entities on top of the VHDL abstract interpreter: generics are symbolic formats and enumerated modes, every signal is evaluated at a cycle "
             "as a function of the inputs of the current and earlier cycles. " + VH),
    "C19": S("MATLAB wrappers", c_matlab.ob_c19,
             "on every path of a wrapper the Python operation of the same name receives the caller's arguments, each datum converted with its own format, "
             "and the result is converted back with the result format in the caller's orientation",
             trusted=["the MATLAB front end and symbolic evaluator of /verif/sa (matlab.py, c_matlab.py)",
                      "mat2py.m / py2mat.m (third-party code) convert between MATLAB and Python data without loss",
                      "MATLAB fi() / numerictype / uint64 semantics of the used subset"],
             assumptions=["wide.m is evaluated on listed format shapes (widths 8..300) with symbolic words", "data wrappers: operands up to two dimensions"],
             explanation="The MATLAB sources are parsed and every wrapper is evaluated symbolically: arguments are opaque symbols, branches on the shape / format of an argument are explored "
             "in both directions, and the resulting call term is compared with the documented one."),
    "C20": S("RTL compiles as VHDL-93", c_std.ob_c20, "the VHDL-93 front end accepts every RTL file in dependency order; every used library unit is a VHDL-93 standard package or part of hdl/",
             trusted=["ghdl 4.1 --std=93 as VHDL-93 front end"], assumptions=[],
             explanation="Static checking of every design unit in hdl/ by a VHDL-93 type checker (analysis only, nothing is elaborated or run) plus a scan of library and use clauses."),
    "C21": S("cosim runner", c_cosim.ob_c21,
             "thread-modular rely-guarantee fixpoint: shared state is abstracted per script, every interleaving at lock granularity is covered",
             trusted=["the thread-modular analysis of /verif/sa (c_cosim.py)", "CPython: a threading.Lock / RLock excludes other threads; a list / dict / set operation is atomic"],
             assumptions=["cosim scripts themselves do not call the runner"],
             explanation="Rely-guarantee abstract interpretation of both cosim_runner classes: the methods are interpreted with the lock state, the abstract shared state is havocked by the "
             "interference of the other threads whenever the lock is not held, and the interference is iterated to a fixpoint."),
    "C18": S("names, codes and text forms", c_text.ob_c18,
             "codes and names agree member by member; text forms evaluated on symbolic decimal digits are read back as the same value",
             trusted=TBV + TB[:1] + ["the MATLAB front end of /verif/sa (matlab.py)"],
             assumptions=["format fields of 1 to 4 decimal digits and either sign (thorough: 9 digits); strings indexed upwards from 1 or another bound"],
             explanation="The member tables of the three languages are extracted from the sources and compared. The text functions are interpreted abstractly with strings whose "
             "digit characters are symbolic (0..9), so each obligation covers every number of the given digit count and sign."),
    "C23": S("text files and array helpers of the simulation library", c_tb.ob_c23,
             "the text written for a datum is its number (read by an independent rule), every reader returns the number that a text of symbolic digits shows, "
             "and what is written is read back unchanged, element by element",
             trusted=TBV + TB[:1] + ["std.textio / ieee.numeric_bit(_unsigned) / numeric_std text procedures (read, write, hread, hwrite, readline, writeline, file_open / endfile) as modelled in c_tb.py"],
             assumptions=["data widths 1 to 8, 33 bits and more as listed per obligation, files of up to 3 lines and 4 columns with symbolic digits and data; "
                          "decimal text of wider numbers: both ends of the range",
                          "binary and hexadecimal numbers are separated by white space", "one writer or reader per file"],
             explanation="Abstract interpretation of the VHDL packages of lib/en_tb and tb/util on an in-memory model of files and lines: data bits and the digits of texts are symbolic, "
             "branches that depend on them split the trace partition. The decimal texts of integers, vectors and formats are compared with an independent reading. "
             "Files of formats written by the Python model are taken from the abstract run of cl_fix_write_formats."),
}
