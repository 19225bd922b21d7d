#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table. CLAIMED lists the properties with a check."""
import json, os, sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
N = "astro-float-num/src/"

def P(id, title, statement, over, text, tests, files, mech, observe=None, tech="", note="", state=None):
    return dict(id=id, title=title, statement=statement, over=over, text=text, tests=tests, files=files,
                mech=mech, observe=observe or [], tech=tech, note=note, state=state or [])

PROPS = [
P("C01", "Basic arithmetic is correctly rounded",
  "For any two finite numbers, any target precision and any rounding mode, the sum, difference, product, quotient and reciprocal equal the exact mathematical result rounded once to that precision in that mode, and the result is marked inexact exactly when rounding lost something or an argument was inexact. With rounding switched off the result is within one unit in the last place. A result never has another precision than the one asked for.",
  ["inputs"], "all pairs of finite numbers (any mantissa length, exponent, sign, exactness mark), all precisions, all seven rounding modes",
  "The unit tests fix a few dozen operand pairs, or compare operations with each other on uniformly random operands; ties, carries that run through the whole mantissa, cancellation, operands of very different length or magnitude, and the exactness mark have probability near zero there.",
  [N+"num.rs", N+"mantissa/mantissa.rs", N+"mantissa/mul.rs", N+"mantissa/div.rs", N+"ext.rs"],
  [("aligned add/sub with guard bits", N+"mantissa/mantissa.rs abs_add/abs_sub"), ("rounding of a longer mantissa", N+"mantissa/mantissa.rs round_mantissa"), ("quotient and remainder", N+"mantissa/div.rs")],
  ["returned number: value, precision, exactness mark"],
  "property-based testing against exact integer arithmetic (GMP) with one rounding step",
  "Differential test of millions of generated operand pairs against exact GMP integers rounded once by the harness. Trusts GMP and the harness's rounding function; explores, does not prove."),
P("C02", "Full-precision operations and the remainder are exact",
  "Addition, subtraction and multiplication at full precision return the exact mathematical result, and the remainder of two finite numbers returns exactly the dividend minus the divisor times the truncated quotient, with the dividend's sign. This holds for every pair of finite numbers, subnormal ones included, however far apart their exponents are. Only a full-precision product with digits below the smallest normal number may be rounded, and is then marked inexact.",
  ["inputs"], "all pairs of finite numbers; for full-precision addition exponent distances that fit in memory; for the remainder all exponent distances",
  "The tests use a handful of pairs and random same-length operands; remainders with huge exponent distance, subnormal operands and divisors of other lengths are hardly sampled.",
  [N+"num.rs", N+"mantissa/mantissa.rs", N+"mantissa/div.rs"],
  [("modular powering for far exponents", N+"num.rs rem"), ("exact sum with extended mantissa", N+"num.rs add_sub full_prec")],
  ["returned number"], "property-based testing against exact integer and modular arithmetic (GMP)",
  "Exact differential oracle; exponent distance of full-precision sums is bounded by memory (a few thousand bits)."),
P("C03", "Square root and cube root are correctly rounded",
  "For any finite number in the domain, any precision and any rounding mode, the square root and the cube root equal the exact root rounded once, and are marked inexact exactly when the root is not representable or the argument was inexact.",
  ["inputs"], "all finite numbers (non-negative for the square root), all precisions and rounding modes",
  "Tests square random roots and check the neighbourhood; perfect powers, perfect powers off by one and exact ties in other precisions are not reached.",
  [N+"ops/sqrt.rs", N+"ops/cbrt.rs", N+"mantissa/sqrt.rs", N+"mantissa/cbrt.rs"],
  [("recursive integer square root", N+"mantissa/sqrt.rs"), ("integer cube root by Newton steps", N+"mantissa/cbrt.rs")],
  ["returned number"], "property-based testing against GMP integer roots, with constructed exact and tie cases",
  "Exact differential oracle on generated inputs including constructed perfect powers, their neighbours and exact ties."),
P("C04", "Exponential and logarithms are correctly rounded",
  "For any argument in the domain, any precision and any rounding mode, the exponential and the natural, binary, decimal and arbitrary-base logarithms terminate and equal the exact value rounded once. The result is marked inexact exactly when it was rounded or an argument was inexact. Results beyond the exponent range overflow to infinity or underflow gradually like every other result.",
  ["inputs"], "all positive numbers for logarithms, all numbers for the exponential, all bases other than 1, all precisions and rounding modes",
  "The tests check inverse identities within an error bound on random arguments, and a few fixed values; hard-to-round arguments, exactly representable results, arguments next to 1 and the ends of the exponent range are not sampled.",
  [N+"ops/pow.rs", N+"ops/log.rs", N+"ops/series.rs", N+"ops/util.rs"],
  [("precision is raised until the rounding is certain", N+"num.rs try_set_precision"), ("argument reduction and series", N+"ops/series.rs")],
  ["returned number; termination"], "differential property-based testing against MPFR, with constructed exact results",
  "Differential against MPFR (correctly rounded, wider exponent range). Trusts MPFR."),
P("C05", "Powers are correctly rounded",
  "For any base and exponent for which the power is defined, with a real or a non-negative integer exponent, any precision and any rounding mode, the power function terminates and returns the exact power rounded once with the right sign. The result is marked inexact exactly when it was rounded or an argument was inexact.",
  ["inputs"], "all pairs (base, exponent) of finite numbers with a real power, all precisions and rounding modes",
  "Tests contain about a dozen fixed powers and random integer powers in one rounding mode; powers that are exactly representable and results at the ends of the exponent range are not reached.",
  [N+"ops/pow.rs", N+"ext.rs"],
  [("precision is raised until the rounding is certain", N+"ops/pow.rs pow, powi")],
  ["returned number; termination"], "differential property-based testing against MPFR, with constructed exact powers",
  "Differential against MPFR. Trusts MPFR."),
P("C06", "Trigonometric functions are correctly rounded",
  "For any finite argument in the domain, any precision and any rounding mode, sine, cosine, tangent and their inverses equal the exact value rounded once, also next to multiples of pi/2, next to 1 and for tiny arguments. The result is marked inexact exactly when it was rounded or the argument was inexact.",
  ["inputs"], "all arguments (up to 2^300000 in magnitude for sine, cosine and tangent because of the cost), all precisions and rounding modes",
  "Tests check identities within an error bound on random arguments and few fixed values; arguments constructed next to multiples of pi/2 or at the thresholds where the method switches are not sampled.",
  [N+"ops/sin.rs", N+"ops/cos.rs", N+"ops/tan.rs", N+"ops/asin.rs", N+"ops/acos.rs", N+"ops/atan.rs", N+"ops/util.rs"],
  [("reduction by pi with enough digits", N+"ops/util.rs"), ("precision is raised until the rounding is certain", N+"num.rs try_set_precision")],
  ["returned number"], "differential property-based testing against MPFR, with arguments constructed next to multiples of pi/2",
  "Differential against MPFR. Trusts MPFR; very large sine arguments are bounded by cost."),
P("C07", "Hyperbolic functions are correctly rounded",
  "For any finite argument in the domain, any precision and any rounding mode, the hyperbolic sine, cosine and tangent and their inverses equal the exact value rounded once, also for tiny and huge arguments, next to 1, and where the result leaves the exponent range. The result is marked inexact exactly when it was rounded or the argument was inexact.",
  ["inputs"], "all arguments in the domain, all precisions and rounding modes",
  "Tests check identities within an error bound on random arguments; thresholds, arguments next to 1 and the overflow boundary are not sampled.",
  [N+"ops/sinh.rs", N+"ops/cosh.rs", N+"ops/tanh.rs", N+"ops/asinh.rs", N+"ops/acosh.rs", N+"ops/atanh.rs"],
  [("precision is raised until the rounding is certain", N+"num.rs try_set_precision")],
  ["returned number"], "differential property-based testing against MPFR",
  "Differential against MPFR. Trusts MPFR."),
P("C08", "Constants are correctly rounded whatever was requested before",
  "Pi, Euler's number and the natural logarithms of 2 and 10 returned for a precision and a rounding mode are the exact constant rounded once, whatever other precisions, rounding modes or functions were requested from the same cache before, in any order.",
  ["histories", "inputs"], "all sequences of requests to one constants cache, all precisions and rounding modes",
  "Tests compare two or three fixed precisions per constant; the cache's growth path depends on the order and size of earlier requests.",
  [N+"ops/consts/pi.rs", N+"ops/consts/e.rs", N+"ops/consts/ln2.rs", N+"ops/consts/ln10.rs", N+"ops/consts/mod.rs"],
  [("binary-splitting state extended on demand", N+"ops/consts/"), ("cached value is reused only if it can be rounded", N+"ops/consts/")],
  ["returned constant"], "stateful property-based testing of request histories against MPFR constants",
  "Histories of up to dozens of requests on one cache, each answer compared with MPFR. Precisions up to tens of thousands of bits.", [("constants cache", "partial sums and last value of every constant", N+"ops/consts/mod.rs")]),
P("C09", "Gradual underflow and overflow at the ends of the exponent range",
  "When the exact result of an arithmetic operation or root lies below the smallest normal number it is rounded once, in the requested mode, to a multiple of the smallest positive number of that precision, possibly to zero or to the smallest positive number. When it rounds to something above the largest number the result is infinity with the right sign. Subnormal operands count with their exact value. The named limits of a precision (largest, smallest, smallest positive, smallest positive normal) are the ends of exactly that range.",
  ["inputs"], "all operand pairs, precisions and modes whose result or operands are within a few words of either end of the exponent range",
  "A few boundary examples are tested with the largest and the smallest number; subnormal operands, ties between subnormals and results that become normal or zero only through rounding are not reached.",
  [N+"num.rs", N+"mantissa/mantissa.rs"],
  [("shift of the mantissa into the subnormal range", N+"num.rs subnormalize"), ("normalisation of subnormal operands", N+"num.rs normalize")],
  ["returned number"], "property-based testing against exact arithmetic at the exponent limits",
  "Exact differential oracle with operands built so that the result falls at either end of the exponent range."),
P("C10", "Comparison is the numerical order",
  "Comparing two numbers gives the order of their exact values whatever their precisions, both zeros are equal, infinities are the extremes, and NaN is unordered; comparing magnitudes gives the order of the absolute values. Equality, ordering operators, minimum, maximum, clamping, sign, negation and absolute value agree with that order.",
  ["inputs"], "all pairs and triples of numbers of any precision, infinities and NaN included",
  "Tests compare a few fixed pairs; equal values of different lengths, subnormals against normals and numbers that differ in the last bit of one of them are rarely generated.",
  [N+"ext.rs", N+"num.rs", N+"mantissa/mantissa.rs"],
  [("word by word comparison from the top", N+"num.rs abs_cmp")],
  ["comparison results, returned numbers"], "property-based testing against the order of exact rationals, plus order laws",
  "Every answer compared with the order of exact values, on pairs built to be equal or nearly equal."),
P("C11", "Rounding to integers and to fractional digits is exact",
  "Floor, ceiling, integer part and fractional part of a finite number are the mathematical ones, and the integer and the fractional part add up to the number. Rounding to a number of fractional binary digits returns the nearest multiple in the requested mode, and numbers that already have no more digits are unchanged. The integer test is true exactly for integers.",
  ["inputs"], "all finite numbers, all digit counts, all rounding modes",
  "Tests have a few fixed values; carries into a new word, values below one, subnormals and ties are sampled by luck.",
  [N+"num.rs", N+"mantissa/mantissa.rs"],
  [("bit masks below the binary point", N+"num.rs floor/ceil/int/fract/round")],
  ["returned number"], "property-based testing against exact integer arithmetic",
  "Exact oracle on generated numbers around binary-point and word boundaries."),
P("C12", "Changing the precision rounds once and changing the exponent scales exactly",
  "Setting a number's precision rounds its exact value once in the given mode, keeps the value when the precision grows, and marks the number inexact exactly if something was lost. A conditional precision change that succeeds gives the value that correctly rounding the exact number would give, for every exact number within the stated number of correct digits. Setting the exponent multiplies by the corresponding power of two.",
  ["inputs"], "all finite numbers, precisions, modes, and counts of correct digits",
  "Tests set a few precisions on fixed mantissas; the decision whether an approximation can be rounded depends on every bit between the two precisions.",
  [N+"num.rs", N+"mantissa/mantissa.rs", N+"ext.rs"],
  [("roundability check on the bits beyond the precision", N+"mantissa/mantissa.rs round_mantissa")],
  ["modified number, returned flag"], "property-based testing: exact rounding oracle, and metamorphic check of roundability against every exact value in the error interval",
  "Exact oracle; for the conditional change the end points of the error interval are rounded exactly and must agree."),
P("C13", "Parsing and conversion from digits are correctly rounded",
  "Reading a number from text or from digits in base 2, 8, 10 or 16 gives the exact value of the numeral rounded once to the requested precision in the requested mode, with the sign of the numeral, zeros included, and marked inexact exactly if rounding lost something. When the precision is left to the reader, it suffices for the digits: base 2, 8 and 16 are read exactly. Values beyond the exponent range become infinity or underflow gradually.",
  ["inputs"], "all valid numerals: any digits, point position, exponent, sign, base; all precisions and rounding modes",
  "Tests read back what the library itself printed, or short literals; numerals next to a rounding boundary, long digit strings with a huge exponent and digits beyond the precision are not reached.",
  [N+"conv.rs", N+"strop.rs", N+"parser.rs", N+"mantissa/conv.rs"],
  [("division and multiplication by powers of ten with extra precision", N+"conv.rs"), ("divide and conquer conversion", N+"mantissa/conv.rs")],
  ["returned number"], "property-based testing of generated numerals against exact rationals",
  "Exact rational oracle (MPFR intervals when the decimal exponent is huge)."),
P("C14", "Formatting and conversion to digits are exact or correctly rounded",
  "Formatting a number, or converting it to digits, in base 2, 8 or 16 denotes exactly the number, and reading that back at the number's precision returns the same number. In base 10 the digits are the exact value rounded once, in the given mode, to floor(p*log10(2))+1 significant digits for a mantissa of p bits, without trailing zeros. The formatting traits print what the formatting function prints when rounding to nearest even; infinities and NaN are read back as such.",
  ["inputs"], "all numbers, infinities and NaN included, of any precision and exponent; all bases and rounding modes",
  "The tests format random numbers of moderate exponents and read them back; powers of ten and two, values next to them, subnormals and extreme exponents are rarely drawn.",
  [N+"strop.rs", N+"conv.rs", N+"ext.rs"],
  [("digit extraction with enough digits for the precision", N+"conv.rs convert_to_radix")],
  ["text, digits"], "property-based round-trip testing plus an exact check of the printed value",
  "Round trip and exact value of the text computed by the harness. The library prints one decimal digit too few for a decimal round trip (its own documentation shows so); none is claimed."),
P("C15", "Text and serialized input never crashes or hangs a reader",
  "Whatever text, digit sequence or serialized value is presented, parsing returns a number, an infinity or NaN with an error, without crashing, and a text that is not a numeral of the base is NaN. What a valid numeral is does not depend on the reading function used.",
  ["inputs"], "all strings up to a few hundred characters, all digit sequences, all exponents, all serialized scalars",
  "The parser tests list about fifty literals; arbitrary text is not generated.",
  [N+"parser.rs", N+"ext.rs", N+"strop.rs", N+"for_3rd/de.rs", N+"conv.rs"],
  [("hand-written scanner", N+"parser.rs")],
  ["returned value or error"], "grammar-based and mutational fuzzing with a reference grammar",
  "Reference scanner written from the documented grammar decides acceptance and value."),
P("C16", "Infinities, NaN and domain errors follow fixed rules",
  "Every operation on infinities, zeros and NaN returns what the limit of the operation defines, and NaN where there is none; NaN arguments give NaN; arguments outside the domain of a function give NaN with an error, or infinity at a pole. No operation on any combination of values crashes.",
  ["inputs"], "all operations on all combinations of NaN, both infinities, both zeros, plus and minus one, the extreme numbers and ordinary numbers",
  "Tests enumerate the operations on a few operands each; the cross product of operations and special operands with precisions and modes is not covered.",
  [N+"ext.rs", N+"num.rs", N+"ops/pow.rs", N+"ops/log.rs"],
  [("case analysis before the finite operation", N+"ext.rs")],
  ["returned value, error"], "exhaustive enumeration of special operands plus generated ordinary operands against a table of limits",
  "Model written from the documentation and the mathematical limits."),
P("C17", "Every value reachable through the interface is well-formed",
  "After any sequence of operations every number has a normalised mantissa (or is subnormal with the smallest exponent, or zero with exponent zero), the precision asked for, and accessors that agree with each other. Taking a number apart and rebuilding it gives an identical number, and rebuilding from inconsistent parts is rejected or normalised.",
  ["histories"], "all sequences of operations and setters on a pool of numbers",
  "Tests look at single results; combinations of setters and operations are not explored.",
  [N+"num.rs", N+"mantissa/mantissa.rs", N+"ext.rs"],
  [("bit length kept next to the mantissa", N+"mantissa/mantissa.rs")],
  ["accessors after every step"], "stateful property-based testing with invariants after every step",
  "Random operation sequences on a pool of numbers with an exact model of the values where the operation is exact.", [("mantissa bit length", "number of significant bits stored beside the words", N+"mantissa/mantissa.rs")]),
P("C18", "Native integers and floats convert exactly or rounded once",
  "Every native integer and every native float converts to the number of the same value when the precision allows it, and otherwise to that value rounded, or to NaN with an error when the precision is below the width of the integer type; not-a-number, infinities, signed zeros and subnormal floats convert to their counterparts. All conversion routes for the same value agree.",
  ["inputs"], "all values of the ten integer types, of 32-bit and 64-bit floats, all precisions",
  "Tests convert a few values per type; extreme integers, subnormal floats and precisions below the type's width are not covered.",
  [N+"ext.rs", N+"num.rs"],
  [("bit manipulation of the float's fields", N+"num.rs from_f64")],
  ["returned number"], "property-based testing against exact values of native types",
  "Exact oracle; corner-biased native values."),
P("C19", "The exactness mark is sound and changes nothing else",
  "Marking an argument as inexact never changes the value an operation returns; it makes exactly those results that depend on the argument inexact. Results of exact operations on exact arguments are marked exact.",
  ["inputs"], "all operations, all arguments, all combinations of marks",
  "Tests check the mark on a few additions and multiplications only.",
  [N+"num.rs", N+"ops/"],
  [("mark joined from arguments and rounding", N+"num.rs")],
  ["returned number"], "metamorphic property-based testing: the same call with and without marks",
  "Metamorphic comparison over every operation."),
P("C20", "Serialized numbers are numerals and are read back as written",
  "A serialized number is its decimal numeral as formatting gives it (rounded once to the digits of the number's precision), and deserializing a string reads the numeral it holds just as parsing does, the same through every interface; infinities, NaN and the sign of zero survive the round trip. Deserializing a native integer or float of any width gives exactly the number of that value.",
  ["inputs"], "all numbers of any precision, infinities, NaN; native scalars of every type",
  "One test serializes a single value.",
  [N+"for_3rd/ser.rs", N+"for_3rd/de.rs"],
  [("text form inside the serialized value", N+"for_3rd/ser.rs")],
  ["deserialized value"], "property-based round-trip testing through a self-describing format and scalar deserializers",
  "Round trip via JSON and serde's value deserializers."),
P("C21", "Expressions evaluate to the mathematically correct value",
  "An expression evaluated by the expression macro yields the exact value of the expression, arguments taken as exact, up to a final error of a few units in the last place of the requested precision, even when sub-results cancel. Results outside the context's exponent range become infinity or zero.",
  ["programs", "inputs"], "expressions over all operators, functions and constants; all argument values, precisions and rounding modes",
  "The macro tests evaluate about thirty expressions on fixed or random benign arguments.",
  ["astro-float-macro/src/lib.rs", "astro-float-macro/src/util.rs", N+"macro_util.rs", N+"ctx.rs"],
  [("working precision raised by an error estimate", "astro-float-macro/src/lib.rs"), ("error estimates of ill-conditioned functions", N+"macro_util.rs")],
  ["returned number"], "differential property-based testing of a family of compiled expressions against MPFR interval evaluation",
  "A fixed family of expressions is compiled in; arguments, precisions, modes are generated."),
P("C22", "The evaluation context keeps and applies its settings",
  "A context reports the precision, rounding mode and (clamped) exponent range it was given, through every way of building, cloning, changing or destructuring it, and constants and expressions use exactly those settings.",
  ["histories"], "all sequences of context operations with all settings",
  "One test sets each value once.",
  [N+"ctx.rs", N+"macro_util.rs"],
  [("clamping setters", N+"ctx.rs")],
  ["accessors, constants, expression results"], "stateful model-based testing of context operation sequences",
  "Model is a plain record of the settings."),
P("C23", "Long multiplication and division are exact at every size",
  "Multiplying and dividing numbers of any length, equal or very different, is as correct as for short ones: the product of two numbers at full precision is exact, and quotients, remainders, roots and conversions of long numbers are correctly rounded.",
  ["inputs"], "operand lengths from one word to tens of thousands of words, in all ratios, around the lengths where the method changes",
  "Tests use a few fixed lengths with uniformly random words, which never produce long carries, zero blocks or extreme evaluation points.",
  [N+"mantissa/mul.rs", N+"mantissa/toom2.rs", N+"mantissa/toom3.rs", N+"mantissa/fft.rs", N+"mantissa/div.rs", N+"mantissa/sqrt.rs", N+"mantissa/conv.rs"],
  [("Karatsuba, Toom-3, FFT multiplication", N+"mantissa/"), ("recursive division", N+"mantissa/div.rs")],
  ["returned number"], "property-based testing of long structured operands against GMP",
  "Exact differential oracle; lengths concentrated around the method switches."),
P("C24", "Operations are pure: no hidden state, no argument is changed",
  "The result of an operation depends only on its arguments: repeating it, using a fresh or a heavily used constants cache, another thread, or the same object for both operands gives the identical result, and arguments passed by reference are never modified. Algebraic symmetries (commuted operands, mirrored signs with mirrored rounding) hold bit for bit.",
  ["histories", "schedules", "inputs"], "all operations, arguments, cache histories, and threads with their own caches",
  "Tests never repeat a call under another history.",
  [N+"ops/consts/mod.rs", N+"ext.rs", N+"ops/"],
  [("constants cache passed explicitly", N+"ops/consts/mod.rs")],
  ["returned number, arguments"], "metamorphic property-based testing across cache histories, aliasing and symmetries",
  "Metamorphic comparison; thread interleavings are sampled by the operating system only.", [("constants cache", "the only state shared by calls", N+"ops/consts/mod.rs")]),
P("C25", "Wrong precision arguments are reported, not crashed on",
  "A precision that is too large gives NaN with an error, and a precision of zero or one that is not a multiple of the word size gives a defined result, for every operation and constructor. No combination of arguments crashes the process.",
  ["inputs"], "all operations and constructors with precision 0, ragged precisions and precisions near the largest machine integer",
  "Tests pass a wrong precision to a few operations.",
  [N+"num.rs", N+"ext.rs", N+"common/util.rs"],
  [("precision check on entry", N+"num.rs p_assertion")],
  ["returned value, error"], "property-based testing of every entry point with boundary precisions",
  "All entry points enumerated; a panic is a violation."),
P("C26", "Random numbers respect their contract",
  "A generated random number has the requested precision, is normalised, has an exponent within the requested bounds; numbers of both signs and of different exponents within the bounds occur, and an empty range is handled without a crash.",
  ["inputs"], "all precisions and exponent ranges",
  "One test draws a few numbers.",
  [N+"num.rs"],
  [("exponent drawn from the range", N+"num.rs random_normal")],
  ["returned number"], "property-based testing of generated ranges with a coverage test of the range",
  "Bounds are checked for every draw; coverage of a short range is checked with enough draws that a miss has negligible probability."),
P("C27", "Results do not depend on the content of fresh memory; buffers are respected",
  "The library leaves freshly allocated words uninitialised for speed, and moves them with pointers. Whatever those words contain, every operation, conversion and constant gives the same, well-formed result, and nothing is written in front of or behind an allocated block.",
  ["inputs", "faults"], "all operations, arguments and contents of fresh memory",
  "A test sees the memory contents of one process; fresh pages are zero, which hides a missing initialisation.",
  [N+"common/buf.rs", N+"common/util.rs", N+"mantissa/"],
  [("buffers are allocated without initialisation", N+"common/buf.rs"), ("pointer loops of the shifts", N+"common/util.rs")],
  ["returned value", "the memory around every block"], "metamorphic property-based testing under an allocator that chooses the content of fresh memory and guards every block",
  "Each case runs under five contents of fresh memory, and the results are compared bit for bit; every block lies between guarded strips, in the checks of the other properties as well."),
P("C28", "Running out of memory is reported and leaves everything usable",
  "When any allocation during a call fails, the result is NaN with MemoryAllocation or the error MemoryAllocation, or else the ordinary result. The process is not aborted, no panic is raised, the operands are unchanged, and the constants cache used in the failed call gives right results afterwards.",
  ["faults", "inputs", "histories"], "all operations, conversions and constants, all arguments, every allocation as the point of failure, one failure or all later ones",
  "Tests run with plenty of memory; no allocation of a test ever fails.",
  [N+"common/buf.rs", N+"conv.rs", N+"mantissa/conv.rs", N+"ops/consts/", N+"ops/series.rs", N+"ext.rs"],
  [("fallible reservation", N+"common/buf.rs"), ("errors become NaN", N+"ext.rs result_to_ext")],
  ["returned value, error", "later results with the same cache"], "fault injection in the allocator over generated calls, compared with the run without a fault",
  "The failing allocation is drawn among those the call makes; formatting through the traits of the standard library, which cannot report an error, is left out.", [("constants cache", "series of the constants and powers of ten, extended in place", N+"ops/consts/mod.rs")]),
P("C29", "The library compiled for 32-bit machines computes the same",
  "Compiled for a machine with 32-bit words the library gives the same results as on 64-bit machines: arithmetic, functions, powers and constants are correctly rounded at every precision that is a multiple of 32, over the exponent range of that build; conversions of text and native numbers, comparisons and errors agree with the 64-bit build wherever the range permits, and nothing panics.",
  ["inputs", "configurations"], "all operations and arguments, precisions of whole and half 64-bit words, the smaller exponent range of the 32-bit build",
  "Tests run on the machine of the developer; the 32-bit code paths (word size, exponent limits, native conversions in several words, digit chunks) never run.",
  [N+"defs.rs", N+"num.rs", N+"conv.rs", N+"mantissa/", N+"common/util.rs", N+"ops/"],
  [("word type and exponent range selected by target_arch", N+"defs.rs"), ("conversions of native numbers in several words", N+"num.rs"), ("digit chunks per word", N+"mantissa/conv.rs")],
  ["result of the 32-bit build"], "differential property-based testing of the 32-bit build against MPFR/GMP and against the 64-bit build",
  "The library is compiled for i686 with a standard library from its sources and answers generated cases over a pipe; values are judged by the oracles of the 64-bit checks with the smaller range, the rest by comparison with the 64-bit build."),
]

CLAIMED = sys.argv[1].split(",") if len(sys.argv) > 1 else open(os.path.join(ROOT, "tools", "claimed.txt")).read().split()

NOT_YET = "no check registered yet"
REASONS = {}

def main():
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in PROPS:
            d = dict(id=p["id"], title=p["title"], statement=p["statement"],
                     quantifier=dict(over=p["over"], text=p["text"]),
                     why_tests_cant=p["tests"],
                     anchors=dict(files=p["files"],
                                  mechanism=[dict(name=a, where=b) for a, b in p["mech"]],
                                  observe_at=p["observe"], hook_needed=None))
            if p["state"]:
                d["anchors"]["state"] = [dict(name=a, meaning=b, where=c) for a, b, c in p["state"]]
            assert len(p["title"]) <= 80, p["id"]
            f.write(json.dumps(d) + "\n")
    m = dict(version=1, setup_cmd="bash ./run.sh build",
             hooks=dict(guard="none", enable="no hooks are needed: every property is observed through the public interface", source_commits=[]),
             checks=[], not_applicable=[],
             notes="One harness crate (harness/, binary afcheck) built by cargo from /repo's working tree. DESIGN.md describes generators and oracles; known-findings.json lists recorded and repaired defects.")
    for p in PROPS:
        if p["id"] in CLAIMED:
            m["checks"].append(dict(property=p["id"], quick_cmd=f"bash ./run.sh {p['id']} quick",
                                    thorough_cmd=f"bash ./run.sh {p['id']} thorough",
                                    evidence_file=f"evidence/{p['id']}.json",
                                    technique=p["tech"], level="exploration", level_note=p["note"]))
        else:
            m["not_applicable"].append(dict(property=p["id"], reason=REASONS.get(p["id"], NOT_YET)))
    json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)

main()
