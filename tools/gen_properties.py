#!/usr/bin/env python3
"""Writes properties.jsonl (one place to edit the statements)."""
import json, os
L, I, P = "src/lib.rs", "src/ieee.rs", "src/ppc.rs"
T = "The unit tests sample a handful of operands, mostly of Single and Double; "
props = []
def p(id, title, statement, over, text, why, files, symbols):
    props.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=s, where=files[0]) for s in symbols], observe_at=["public API of the crate"], hook_needed=None)))
INP=["inputs"]; IC=["inputs","configurations"]
p("C01","Bit encodings round-trip and decode to the right value",
  "For every format and every bit pattern of that format's width (for the 80-bit x87 format, every valid encoding), decoding with from_bits and re-encoding with to_bits gives back exactly the same bits. Decoding classifies the pattern as zero, subnormal, normal, infinity, quiet NaN or signaling NaN, with the sign bit, as the format's standard prescribes.",
  IC,"every bit pattern of the 8 scalar formats and of the double-double pair","Tests round-trip a few dozen literals; 2^16..2^128 patterns exist per format and the special encodings differ per format.",[I,P],["Semantics::from_bits","Semantics::to_bits","X87DoubleExtendedS"])
p("C02","NaN operands propagate with payload, sign and quieting",
  "When an operand of add, sub, mul, div, ieee_rem, c_fmod or round_to_integral is NaN, the result is the first NaN operand with its sign and payload kept and its quiet bit set, whatever the rounding mode. INVALID_OP is raised exactly when some operand is a signaling NaN, and no other flag is ever raised.",
  IC,"every NaN payload and sign, every other operand, every rounding mode, every scalar format",T+"payload x other operand x mode x format is never enumerated.",[I],["IeeeDefaultExceptionHandling","add_r","sub_r","mul_r","div_r","ieee_rem","c_fmod"])
p("C03","Infinity and zero operands give the IEEE 754 special results",
  "When no operand is NaN and an operand of add, sub, mul, div, ieee_rem or c_fmod is infinite or zero, the result value, its sign and the status flags are those IEEE 754 prescribes (for example Inf-Inf, 0*Inf, 0/0, Inf/Inf, rem(Inf,y), rem(x,0) give the default NaN with INVALID_OP; x/0 gives a signed infinity with DIV_BY_ZERO; x+0 and x/Inf are exact). This holds for every finite value of the other operand and every rounding mode.",
  IC,"all pairs of operand classes, every value in each class, five rounding modes, every scalar format",T+"the special-case tables are spot-checked with one finite value per class.",[I],["add_r","sub_r","mul_r","div_r","ieee_rem","c_fmod"])
p("C04","Fused multiply-add special operands",
  "mul_add with a NaN, infinite or zero multiplicand, or a NaN or infinite addend, gives the IEEE 754 special result: NaN operands propagate quieted, Inf*0 gives NaN with INVALID_OP (whatever the addend, as IEEE 754 leaves open), Inf-Inf gives NaN with INVALID_OP, an infinite product or addend gives the correctly signed infinity, and a zero product plus an addend gives that addend (or the exact-zero sum sign rule).",
  IC,"all operand-class triples with a special member, every value in each class, five rounding modes",T+"only a few triples appear.",[I],["mul_add_r"])
p("C05","Addition and subtraction are correctly rounded",
  "For all finite operands and every rounding mode, add and sub return the exact sum or difference rounded once to the format, with the sign of an exact zero result following IEEE 754 (negative only under TowardNegative or when both addends are negative). The flags report INEXACT exactly when rounding changed the value, plus OVERFLOW or UNDERFLOW where that applies.",
  IC,"all pairs of finite operands, five rounding modes",T+"correct rounding depends on alignment distance, sticky bits and carries that samples do not cover.",[I],["add_r","sub_r","sig::add_or_sub","normalize"])
p("C06","Multiplication is correctly rounded",
  "For all finite nonzero operands and every rounding mode, mul returns the exact product rounded once to the format, with the XOR of the operand signs. The flags report INEXACT exactly when rounding changed the value, plus OVERFLOW or UNDERFLOW where that applies.",
  IC,"all pairs of finite operands, five rounding modes",T+"double rounding and subnormal products need specific bit patterns.",[I],["mul_r","sig::mul","normalize"])
p("C07","Result sign rules hold for every finite operand pair",
  "The sign of a non-NaN product or quotient is the XOR of the operand signs in every rounding mode, also when it underflows to zero or overflows; ieee_rem and c_fmod results that are zero carry the dividend's sign; abs, copy_sign and neg change the sign and nothing else.",
  IC,"all operand pairs, five rounding modes","Signs of zero and overflowed results are rarely asserted by tests, which compare values.",[I,L],["mul_r","div_r","c_fmod","ieee_rem"])
p("C08","Rounding overflow and underflow follow mode and sign",
  "A finite operation whose rounded magnitude exceeds the format's largest value returns infinity (or NaN for a format without infinities) for the nearest modes and for the directed mode pointing away from zero on that sign, and the correctly signed largest finite value otherwise; it is always INEXACT. A result below the smallest normal that is inexact is flagged UNDERFLOW and INEXACT.",
  IC,"all values crossing the range limits, both signs, five rounding modes, every scalar format",T+"per-format limits times sign times mode are not enumerated.",[I],["normalize","overflow_result"])
p("C09","Integer to float conversion is correctly rounded",
  "from_u128_r and from_i128_r return the integer rounded once to the format in the given mode, exact whenever the integer is representable. The flags are OK when exact, INEXACT when rounded, and the overflow outcome when out of range.",
  IC,"every 128-bit integer, five rounding modes, every scalar format","Tests convert a few small integers; ties, all-ones carries and 128-bit magnitudes are not covered.",[I,L],["from_u128_r","from_i128_r","normalize"])
p("C10","Float to integer conversion rounds, saturates and flags correctly",
  "to_u128_r and to_i128_r round the value to an integer in the given mode; when it fits the requested width they return it with OK and is_exact, or INEXACT and not is_exact. NaN gives zero with INVALID_OP; infinities and values out of range give the nearest representable bound with INVALID_OP; negative zero gives zero, not exact.",
  IC,"every value of every scalar format, every width from 1 to 128, five rounding modes","Tests use a few widths and values; range ends per width, sign and mode are not enumerated.",[I,L],["to_u128_r","to_i128_r"])
p("C11","Format conversion is correctly rounded and reports lost information",
  "convert_r between any two scalar formats returns the value rounded once to the destination (infinities, zeros and signs preserved where the destination has them), and NaNs keep sign and the payload's leading bits, quieted with INVALID_OP if signaling. loses_info is true exactly when the value or NaN payload changed other than by quieting (a signaling x87 NaN leaving its format is always reported), and widening conversions of other values never lose anything.",
  IC,"every value of every ordered pair of scalar formats, five rounding modes","Tests cover about a dozen literals over a few pairs.",[I],["convert_r"])
p("C12","Comparison is the IEEE total relation on values",
  "partial_cmp orders all non-NaN values by numeric value with -0 equal to +0, returns None exactly when an operand is NaN, and ==, <, <=, > and >= agree with it. cmp_abs_normal orders finite nonzero values by magnitude, and bitwise_eq holds exactly for identical encodings.",
  IC,"all pairs of encodings in every scalar format",T+"the order is over all pairs.",[I],["PartialOrd","cmp_abs_normal","bitwise_eq"])
p("C13","min, max, minimum and maximum select the right operand",
  "min and max return the other operand when exactly one is NaN, and otherwise one of the two operands, never smaller (larger) than both; minimum and maximum propagate NaN and order -0 below +0. The returned value is always bit-identical to an operand.",
  IC,"all operand pairs in every scalar format","Tests check a few pairs of Single.",[L],["min","max","minimum","maximum"])
p("C14","Sign operations and classification predicates agree with the encoding",
  "neg flips the sign of any value including NaN and zero, abs clears it, copy_sign sets it from the other operand, and none changes any other bit. is_nan, is_infinite, is_zero, is_denormal, is_signaling, is_finite, is_normal, is_finite_non_zero, is_pos_zero, is_neg_zero, is_smallest, is_largest, is_smallest_normalized and is_integer hold exactly for the encodings of that kind.",
  IC,"every bit pattern of every scalar format","Tests sample one or two values per predicate.",[L,I],["copy_sign","abs","is_*"])
p("C15","next_up and next_down step to the adjacent value",
  "next_up of any finite value is the next encoding in numeric order (crossing subnormal and binade boundaries, -smallest to -0, zeros to smallest, largest to infinity where the format has it), infinities and quiet NaNs map as IEEE 754 prescribes, and signaling NaNs raise INVALID_OP. next_down is its mirror image.",
  IC,"every value of every scalar format","Tests cover boundary literals of Single and Double only.",[I,L],["next_up","next_down"])
p("C16","scalbn, ilogb and frexp scale by powers of two exactly",
  "ilogb returns the unbiased exponent of any finite nonzero value (subnormals included) and the reserved markers for zero, infinity and NaN. scalbn_r multiplies by 2^n for any int exponent, rounding at most once, and frexp_r splits a value into a fraction in [0.5,1) and exponent that scale back to it.",
  IC,"every value, every exponent, five rounding modes",T+"extreme exponents and subnormals interact.",[I],["ilogb","scalbn_r","frexp_r"])
p("C17","Default-mode methods and operators equal the explicit-mode forms",
  "The operators + - * / %, their assigning forms and the mode-less methods add, sub, mul, div, mul_add, from_u128, from_i128, from_str, scalbn, frexp and convert behave exactly as the _r forms with NearestTiesToEven (% as c_fmod), and to_u128 and to_i128 as the _r forms with TowardZero. sub is addition of the negation for non-NaN operands.",
  ["inputs","programs"],"every call of each convenience form, all operands, all float types","Tests mix forms without comparing them.",[L,I,P],["float_common_impls","Float","FloatConvert"])
p("C18","Format parameters and constants are those of the published formats",
  "Each format's width, precision, exponent range, and its zero, infinity, NaN, smallest, smallest normalized and largest values have exactly the encodings the format's specification prescribes, qnan and snan embed any payload truncated to the payload field with the right quiet bit, and sizes are consistent between constants and encodings.",
  ["configurations","inputs"],"every format, every payload","Tests check some constants of some formats.",[I,P,L],["Semantics","qnan","snan","largest","smallest_normalized"])
p("C19","Arithmetic is pure, safe integer-only code",
  "No operation reads or writes global or thread state, uses host floating point, performs unsafe memory access, I/O, or depends on anything but its arguments; only decimal parsing and printing may allocate. The crate needs no std.",
  ["inputs","histories","configurations"],"every public operation reachable in the call graph","A test cannot observe absence of host-float or global-state dependence on other platforms.",[L,I,P],["all public functions"])
p("C20","Double-double special values behave like the scalar format's",
  "For the double-double format, arithmetic on NaN, infinity and zero operands gives the IEEE 754 category and sign, comparisons order by high then low part, neg negates both parts, and category, sign and denormal predicates derive from the parts (denormal if either part is, or they do not sum exactly).",
  INP,"all pairs of special double-double values, every payload and every finite other operand","Tests sample a few pairs.",[P],["DoubleFloat"])
p("C21","Double-double operations delegate with the caller's rounding mode",
  "Every double-double operation that is computed through the wide fallback format passes the caller's operands and rounding mode through unchanged and converts the result back, so that the result equals the fallback computation on the converted operands.",
  ["inputs","programs"],"every delegating operation, all operands and rounding modes","A swapped operand or dropped rounding mode shows only on inexact results.",[P],["DoubleFloat"])
p("C22","round_to_integral rounds to an integer in the given mode",
  "round_to_integral returns the integral value selected by the rounding mode, keeps the sign (also of zero results), returns integral, infinite and zero inputs unchanged with OK, quiets signaling NaNs with INVALID_OP, and flags INEXACT exactly when the value changed. is_integer holds exactly for finite values equal to their truncation.",
  IC,"every value of every scalar format, five rounding modes",T+"mode x sign x fraction pattern is not enumerated.",[I,L],["round_to_integral","is_integer"])
p("C23","get_exact_inverse returns only exact normal reciprocals",
  "get_exact_inverse returns a value exactly when the input is a normal power of two whose reciprocal is a representable non-subnormal value, and then it is that reciprocal with the same sign.",
  IC,"every value of every scalar format","Tests check five literals.",[I],["get_exact_inverse"])
p("C24","Finite fused multiply-add rounds once",
  "For finite nonzero multiplicands and a finite addend, mul_add returns the exact value a*b+c rounded once in the given mode, with the exact-zero sign rule and with INEXACT raised exactly when rounding changed the value.",
  IC,"all triples of finite operands, five rounding modes",T+"double rounding needs specific triples.",[I],["mul_add_r"])
p("C25","Hexadecimal and special-value text parses exactly",
  "from_str_r accepts the special spellings (inf, INFINITY, +Inf, -Inf, nan and snan with optional payload) with their sign, and hexadecimal literals as their exact value rounded once in the given mode on the signed value. Malformed text is rejected with an error and never panics.",
  INP,"all digit strings of the accepted shapes, all payloads, five rounding modes","Tests parse a fixed list of literals.",[I],["from_str_r","from_hexadecimal_string"])
p("C26","Operations never panic or overflow internally",
  "add, sub, mul, mul_add, comparisons, conversions, next_up, scalbn, ilogb and round_to_integral return normally for every operand, rounding mode and width: no assertion, index, shift or integer overflow fails, so debug and release builds compute the same results.",
  IC,"every operand of every scalar format, five rounding modes",T+"panics hide in corner operands.",[I,L],["normalize","sig::*"])
p("C27","Special values print their canonical text",
  "Display prints NaN as NaN, infinities as +Inf and -Inf, and zero with its sign in the selected notation, whatever the NaN payload.",
  INP,"every NaN payload, infinity and zero of every format, every width, precision and alternate flag","Tests print a few literals.",[I],["Display"])
p("C28","Division is correctly rounded",
  "For all finite nonzero operands and every rounding mode, div returns the exact quotient rounded once to the format, and INEXACT is raised exactly when rounding changed the value.",
  IC,"all pairs of finite operands, five rounding modes",T+"quotient bits depend on every operand bit.",[I],["div_r","sig::div"])
p("C29","Remainders are exact",
  "c_fmod returns x - n*y with n = trunc(x/y) and ieee_rem with n = nearest-even(x/y), both exactly and without flags, for all finite x and nonzero finite y.",
  IC,"all pairs of finite operands",T+"the iteration count depends on the exponent difference.",[I],["c_fmod","ieee_rem"])
p("C30","Decimal literals: integers round once, zeros and far exponents are exact, malformed text is rejected",
  "from_str_r on a decimal literal whose value is an integer written without a negative net exponent (digits, with a point, with an exponent) returns that integer rounded once in the given mode on the signed value, INEXACT exactly when rounding changed it, overflow included; a literal of zero digits gives zero with its sign and no flag whatever its exponent; a literal far above or below the range overflows or underflows as the mode and sign demand; text that is not a literal is an error.",
  IC,"all decimal integer literals, zeros and far exponents, all short ASCII texts, five rounding modes","Halfway cases need long digit strings.",[I],["from_decimal_string"])
p("C31","Decimal printing round-trips",
  "Printing any finite value at default precision and parsing the text back with NearestTiesToEven gives the same value.",
  IC,"every finite value of every format","Exhaustive only for tiny formats.",[I],["Display","from_str_r"])
p("C32","Fractional decimal literals are correctly rounded",
  "from_str_r on a decimal literal with a fractional value returns the exact decimal value rounded once in the given mode on the signed value (zero or a subnormal included), INEXACT exactly when rounding changed it, with UNDERFLOW when the result is then subnormal or zero, OVERFLOW when it is out of range.",
  IC,"all decimal strings with a negative net exponent, five rounding modes","Halfway cases need long digit strings.",[I],["from_decimal_string"])
p("C33","Double-double sums of doubles and scalings are exact",
  "With NearestTiesToEven, adding or subtracting two doubles as DoubleDouble gives the exact sum, its high part the sum rounded to double and its low part the rest, or infinity when the sum rounds out of the range, whatever the operand order; multiplying a normalised DoubleDouble by a power of two (nothing overflowing or underflowing) and adding it to itself scale both parts exactly, and subtracting it from itself gives +0. A sum of like-signed operands an ulp or more beyond the largest value is an infinity with a zero low part, one an ulp or more below it is finite. The sum of like-signed normalised pairs is normalised (low part at most half a unit of the high part's last place) and within 2^-104 of the exact sum.",
  IC,"all pairs of doubles with zero low parts; all normalised double-doubles","Tests use a few dozen operand pairs.",[P],["DoubleFloat::add_r","DoubleFloat::mul_r"])
p("C34","Double-double conversions keep 106 bits of the value",
  "from_u128_r, from_i128_r and from_str_r (integers in decimal, hexadecimal literals) give the double-double of the value rounded to 106 bits in the given mode: high part the value rounded to nearest double, low part the rest, flags INEXACT exactly when bits were lost. to_u128_r, to_i128_r and round_to_integral of a normalised pair whose exact sum has at most 106 bits round that sum (not the parts) to an integer in the given mode, saturate and flag as the scalar formats do.",
  IC,"all integers, literals, normalised pairs within 106 bits, five rounding modes","Tests convert a few constants; ties and carries across the two parts need specific low parts.",[P,I],["DoubleFloat::from_u128_r","DoubleFloat::to_u128_r","DoubleFloat::from_str_r","From<Fallback>"])
p("C35","Finite values print their decimal digits",
  "Printing a finite nonzero value of any format, DoubleDouble included, gives a minus sign exactly when it is negative and digits that denote the value within one unit of the last digit the precision allows (so exactly, when that many digits suffice), rounded to nearest with halves away from zero when the exact digits are not cut beforehand (as an integer they have at most three bits more than ceil(precision*196/59)). At most precision significant digits appear; no precision or precision 0 means the natural one, 2 + floor(P*59/196). Notation is plain when the zeros to insert fit the width (default 3, 0 always scientific) and, for integers, the precision; otherwise d.dE+x, or in alternate form d.ddde+xx filled with zeros to the precision.",
  IC,"every finite value, width, precision and form, every format","Tests print a few dozen values.",[I,P],["Display"])
with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for q in props: f.write(json.dumps(q)+"\n")
