"""What each property's check analyses.

quick/thorough: lists of analyser runs; an entry filter is `name[@pre-partition]` (see engine/absint).
"""
F8 = ["E5M2", "E4M3", "Half", "BFloat", "Single", "Double", "X87", "Quad"]
BIG = 1000000000
ALLFMT = "all eight scalar formats"

def run(*entries, t=100, T=300, p=BIG):
    return dict(entries=list(entries), t=t, T=T, p=p)

TECH = "abstract interpretation of monomorphised MIR (intervals + affine bit-slice values, trace partitioning) against a reference semantics"

def simple(explain, *entries, thorough=None, **kw):
    d = dict(quick=[run(*entries)], explain=explain, technique=TECH)
    if thorough:
        d["thorough"] = thorough
    d.update(kw)
    return d

PLAN = {
    "C01": simple("Every encoding class (zero, subnormal, normal, infinity, quiet/signaling NaN) of " + ALLFMT + " with symbolic sign, exponent and fraction fields is pushed through from_bits, to_bits and the classification methods; DoubleDouble likewise for every pair of parts.", "C01::", "C01_dd"),
    "C02": simple("Both operands range over every encoding class, at least one NaN; add, sub, mul, div, ieee_rem, c_fmod, round_to_integral in every rounding mode, " + ALLFMT + ".", "C02::"),
    "C03": simple("Neither operand NaN, at least one zero or infinite, the other any value; the six binary operations in every rounding mode, " + ALLFMT + ".", "C03::"),
    "C04": simple("Every combination of three operand classes with a special multiplicand or a NaN/infinite addend, every rounding mode, " + ALLFMT + ".", "C04::"),
    "C05": simple("Every pair of finite nonzero operands (all exponents, all fractions, both signs) of " + ALLFMT + ", five rounding modes; exact rational sum rounded once by the reference.", "C05::@round/5,a.kind/2,b.kind/2", "C05_sub@round/5,a.kind/2,b.kind/2"),
    "C06": dict(quick=[run("C06::E5M2", "C06::E4M3", "C06::Half@round/5,a.kind/2,b.kind/2", "C06::BFloat@round/5,a.kind/2,b.kind/2",
                           "C06::Single@round/5,a.kind=0,b.kind=0", "C06::Double@round/5,a.kind=0,b.kind=0", "C06::X87@round/5,a.kind=0,b.kind=0", "C06_pat::Quad@round/5", "C06_pat::X87@round=0;3", "C06_pat::Double@round=1", "C06_pat::Single@round=2")],
                thorough=[run("C06::E5M2", "C06::E4M3", "C06::Half@round/5,a.kind/2,b.kind/2", "C06::BFloat@round/5,a.kind/2,b.kind/2",
                              "C06::Single@round/5,a.kind/2,b.kind/2", "C06::Double@round/5,a.kind/2,b.kind/2", "C06::X87@round/5,a.kind/2,b.kind/2", "C06::Quad@round/5,a.kind=0,b.kind=0", "C06_pat@round/5", t=3000, T=6000)],
                explain="Every pair of finite nonzero operands of the 8- and 16-bit formats and every pair of normal operands of Single, Double and x87, five rounding modes; Quad (and the others, with subnormals) on 16 x 16 significand patterns with one operand in [1,2) and the other's exponent and both signs free; the exact product rounded once by the reference.", technique=TECH),
    "C07": dict(quick=[run("C07_all::E5M2@a.frac/4,b.frac/4", "C07_all::E4M3@a.frac/8,b.frac/8", "C07_mul::Half@round/5", "C14_sign")],
                thorough=[run("C07_all::E5M2@a.frac/4,b.frac/4", "C07_all::E4M3@a.frac/8,b.frac/8", "C07_mul@round/5,a.kind/2,b.kind/2", "C14_sign", t=600, T=2000)],
                explain="Products, quotients and both remainders of every pair of finite operands of the 8-bit formats (every fraction pair a partition, exponents and signs symbolic), five rounding modes; products of every pair of finite operands of Half (thorough: every format); neg, abs and copy_sign of every value of " + ALLFMT + ".", technique=TECH),
    "C08": dict(quick=[run("C08_add", "C08_scale::E", "C08_scale::Half", "C08_scale::BFloat", "C08_scale::Single@round/5", "C08_scale::Double@round=0;1", "C08_scale::X87@round=2;4", "C08_scale::Quad@round=1", "C08_int", "C08_conv", "C08_mul::E5M2", "C08_mul::E4M3", "C08_mul::Half", "C08_mul::BFloat@round=1;2", "C08_mul::Single@round=1", "C08_mul::Double@round=2", "C08_mul::X87@round=4", "C08_div::E5M2@a.frac/4,b.frac/4")],
                thorough=[run("C08_add", "C08_scale@round/5", "C08_int", "C08_conv", "C08_mul@round/5", "C08_div::E5M2@a.frac/4,b.frac/4", "C08_div::E4M3@a.frac/8,b.frac/8", t=600, T=2000)],
                explain="Sums in the top binades, scalings and conversions to either range limit, integers at the top of the range, products out of range on either side, E5M2 quotients at the limits; five rounding modes, both signs, " + ALLFMT + ".", technique=TECH),
    "C09": simple("Every 128-bit unsigned and signed integer, five rounding modes, " + ALLFMT + ".", "C09_u::", "C09_i::"),
    "C10": dict(quick=[run("C10_u::E5M2", "C10_u::E4M3", "C10_u::Half", "C10_i::E5M2", "C10_i::E4M3", "C10_i::Half@round/5",
                           "C10_u::BFloat@width=1;8;32;63;64;65;127;128", "C10_i::BFloat@width=1;8;32;63;64;65;127;128",
                           "C10_u::Single@width=1;31;32;33;64;127;128", "C10_i::Single@width=1;31;32;33;64;127;128",
                           "C10_u::Double@width=1;32;63;64;65;128", "C10_i::Double@width=1;32;63;64;65;128",
                           "C10_u::X87@width=1;63;64;65;128", "C10_i::X87@width=1;63;64;65;128",
                           "C10_u::Quad@width=1;64;127;128", "C10_i::Quad@width=1;64;127;128")],
                thorough=[run("C10_u::@width=%s" % ";".join(map(str, range(1, 129))), "C10_i::@width=%s" % ";".join(map(str, range(1, 129))), T=3000)],
                explain="Every value of " + ALLFMT + ", five rounding modes; every width 1..=128 for the 8- and 16-bit IEEE formats, the boundary widths for the others (every width in the thorough tier).", technique=TECH),
    "C11": simple("All 64 ordered pairs of scalar formats, every source value, five rounding modes.", "C11::"),
    "C12": simple("Every pair of encoding classes with symbolic fields, " + ALLFMT + ": partial_cmp, the comparison operators, cmp_abs_normal, bitwise_eq.", "C12::"),
    "C13": simple("Every pair of encoding classes with symbolic fields, " + ALLFMT + ": min, max, minimum, maximum.", "C13::"),
    "C14": simple("Every encoding class with symbolic fields, " + ALLFMT + ": neg, abs, copy_sign and nineteen predicates.", "C14_"),
    "C15": simple("Every encoding class with symbolic fields, " + ALLFMT + ": next_up and next_down.", "C15::"),
    "C16": simple("Every encoding class with symbolic fields, every int scale, five rounding modes, " + ALLFMT + ": ilogb, frexp_r, scalbn_r.", "C16_log", "C16_frexp", "C16_scale::E", "C16_scale::Half", "C16_scale::BFloat", "C16_scale::Single@round/5", "C16_scale::X87@round/5", "C16_scale::Double@round/5", "C16_scale::Quad@round=0;3",
                  thorough=[run("C16_log", "C16_frexp", "C16_scale::@round/5")]),
    "C17": simple("The operators, assigning operators and mode-less methods of every format incl. DoubleDouble against a contract for the explicit-mode method (operands, mode, scale, width passed; value and flags returned), plus both forms analysed side by side on symbolic operands.",
                  "C17_via", "C17_num::E5M2", "C17_num::E4M3", "C17_num::Half", "C17_num::Single@op/6", "C17_conv", "C17_add::E5M2", "C17_add::E4M3", "C17_sub::E5M2", "C17_sub::E4M3", "C17_subr::Half@a.kind/6", "C17_subr::E5M2", "C17_subr::E4M3", "C17_mul::E5M2", "C17_mul::E4M3",
                  "C17_div::E5M2@a.frac/4,b.frac/4", "C17_rem::E5M2@a.frac/4,b.frac/4",
                  thorough=[run("C17_via", "C17_num", "C17_conv", "C17_add@a.kind/6,b.kind/6", "C17_sub::@a.kind/6,b.kind/6", "C17_subr@a.kind/6,b.kind/6", "C17_mul@a.kind/6,b.kind/6", "C17_div::E5M2@a.frac/4,b.frac/4", "C17_rem::E5M2@a.frac/4,b.frac/4",
                                "C17_div::E4M3@a.frac/8,b.frac/8", "C17_rem::E4M3@a.frac/8,b.frac/8", t=600, T=2000)]),
    "C18": simple("Every associated constant of every format against the published encoding; qnan and snan for every 128-bit payload or none; the double-double constants.", "C18_"),
    "C19": dict(quick=[], rules=["effects"], technique="effect analysis over the monomorphised MIR call graph",
                explain="Every function reachable from every public operation of the eight scalar formats and DoubleDouble (panic plumbing excluded): statics, thread-locals, atomics, float-typed values, unsafe calls, raw pointer dereferences, pointer-to-integer casts, foreign or std functions; allocation outside parsing and printing.",
                note="A may-effect analysis: it covers every path of every reachable function, whatever the inputs. Code reached only through a caller-supplied trait object (the output writer) is outside."),
    "C20": simple("DoubleDouble: predicates, neg, abs, ilogb and is_integer for every pair of parts, is_denormal against the exact rounding of hi+lo, comparisons for every pair of values, add/sub/mul whenever an operand is zero, infinite or NaN (every rounding mode), scalbn_r by contract on its parts.",
                  "C20_pred", "C20_integer", "C20_denormal::DoubleDouble@a.hi.kind/6,a.lo.kind/6,a.hi.sign/2,a.lo.sign/2", "C20_special", "C20_cmp::DoubleDouble@a.hi.kind/6", "C20_scale::DoubleDouble"),
    "C21": simple("DoubleDouble operations computed through the fallback, analysed against a contract for the fallback's method: mul_add_r, div_r, ieee_rem, c_fmod, round_to_integral, next_up, next_down, from_u128_r, to_u128_r, get_exact_inverse, from_str_r; the conversions to and from the fallback on values with zero or power-of-two low part; the one-operand operations side by side with the fallback's.",
                  "C21_op@round/5", "C21_wide@round/5,lo.gap=54,lo.at/3", "C21_round::DoubleDouble@wide/2,lo.gap=54;80;104",
                  "C21_side@op=3,wide=0,n.at=10;43;54;70;96;97;106;118,round/5", "C21_side@op=0;4;5,wide=0,round/5", "C21_side@op=0;1;2;4;5,wide=1,round/5,lo.gap=54;80;104"),
    "C22": simple("Every value of " + ALLFMT + ", five rounding modes: round_to_integral and is_integer.", "C22::"),
    "C23": simple("Every value of " + ALLFMT + ": get_exact_inverse.", "C23::"),
    "C24": dict(quick=[run("C24::E5M2@a.frac/4,b.frac/4,c.frac/4", "C24_one::E5M2@a.kind/2,c.kind/2", "C24_one::E4M3@a.kind/2,c.kind/2", "C24_one::Half@a.kind=0,round/5", "C24_one::Single@a.kind=0,a.exp=127,round/5",
                           "C24_gap::BFloat@round=1;4,gap=0;5;9;10;11;12;16;17;18;19;20;22;25;30;38", "C24_gap::Single@round=1;0,gap=0;20;26;27;28;36;48;50;51;52;53;60;70;71;78;79;80;101",
                           "C24_gap::Double@round=2;0,gap=0;40;55;56;57;80;107;108;109;110;111;112;130;150;170;215", "C24_gap::X87@round=3,gap=0;50;66;67;90",
                           "C24_pat::Quad@round=0;3,a.pat=5;14,b.pat=6;13,gap=0;100;115;116;117;140;220;226;227;228;229;260;330;350;457")],
                thorough=[run("C24::E5M2@a.frac/4,b.frac/4,c.frac/4", "C24::E4M3@a.frac/8,b.frac/8,c.frac/8", "C24_one::E5M2@round/5", "C24_one::E4M3@round/5", "C24_one::Half@round/5,a.kind/2", "C24_one::BFloat@round/5,a.kind/2",
                              "C24_one::Single@round/5,a.kind=0,a.exp=2;3;127;253;254", "C24_one::Double@round/5,a.kind=0,a.exp=2;3;1023;2045;2046",
                              "C24::Half@round/5,a.kind/2,b.kind/2,c.kind/3", "C24_gap::BFloat@round/5,gap/39", "C24_gap::Single@round/5,gap/103", "C24_gap::Double@round/5,gap/219", "C24_gap::X87@round/5,gap/263", "C24_pat::Quad@round/5,gap/459", t=600, T=3000)],
                explain="E5M2 (thorough: E4M3): every triple of finite operands, each fraction triple a partition with symbolic exponents and signs, five rounding modes; 1*a+c and -1*a+c for every normal a and every c of E4M3, Half and (one binade of a) Single; BFloat, Single, Double and x87 with arbitrary normal significands, a in [1,2), the exponent of b free and that of c at each of fifteen or so distances covering the ways the addend can align with the product; Quad likewise for patterned a and b and arbitrary c.", technique=TECH),
    "C25": dict(quick=[run("C25_hex::E5M2@round/5", "C25_hex::Half@round=0;3", "C25_hex::Double@round/5", "C25_hex::Quad@round=1;4", "C25_long::Single@round=0;1", "C25_long::X87@round=2", "C25_long::Half@round=4", "C25_extreme::Single@round/5", "C25_extreme::Quad@round=1", "C25_extreme::E4M3@round=2", "C25_extreme::X87@round=0", "C25_nan::", "C25_word::",
                           "C25_grammar::Single@len/5", "C25_infinity::", "C25_dd")],
                thorough=[run("C25_hex::@round/5", "C25_long::@round/5", "C25_extreme::@round/5", "C25_nan::", "C25_word::", "C25_grammar::@len/5", "C25_infinity::", "C25_dd", t=600, T=2000)],
                explain="Hexadecimal literals: every digit string of six shapes up to seven digits (both letter cases), and of three shapes of 33 to 35 digits with the leading, rounding-position and trailing digits free, optional sign and point, every exponent of up to five digits near the range limits, five rounding modes; exponents of five to nineteen digits, around the limits of the exponent type and beyond; NaN text with payloads of six digits in three radices; every digit-free ASCII text of up to five characters; every ASCII text of up to four characters after 0x.",
                technique=TECH),
    "C27": simple("Every NaN, infinity and zero of every format incl. DoubleDouble; no width, width zero or any other width; no precision or 0 to 20; plain and alternate notation. The formatter's output methods are replaced by a contract that records the text.", "C27::"),
    "C26": dict(quick=[run("C26_add::E", "C26_add::Half", "C26_add::BFloat", "C26_add::Single", "C26_add::X87@round=1;4", "C26_sub::E", "C26_sub::Half", "C26_sub::X87@round=2", "C26_mul::E", "C26_mul::Half@round/5",
                           "C26_cmp", "C26_un", "C26_from", "C26_conv", "C26_scale::E", "C26_scale::Half", "C26_scale::BFloat", "C26_scale::X87@round=0", "C26_to::E", "C26_to::Half",
                           "C26_to::Single@width=1;31;32;33;64;127;128", "C26_to::X87@width=1;63;64;65;128", "C26_to::Quad@width=64;127;128",
                           "C26_div::E5M2@a.frac/4,b.frac/4", "C26_div::E4M3@a.frac/8,b.frac/8", "C26_rem::E", "C28_pat::Quad@at=0,a.kind=0,round=1", "C28_pat::X87@at=0,a.kind=0,round=2", "C29_pat::Quad@gap=0;1;2;3;8;9,ieee/2,a.pat=1;5;13,b.pat=6;7;12", "C06_pat::Quad@round=1", "C24_gap::Double@round=1,gap=0;56;107;109;110;130;170;215", "C28::E5M2@a.frac/4,b.frac/4", "C29_fmod::E5M2@a.frac/4,b.frac/4", "C29_rem::E5M2@a.frac/4,b.frac/4", "C04::E5M2", "C24_one::E5M2", "C24_one::Half@round=0",
                           "C26_dd::Pred@op=1;3;4", "C26_dd::Cmp")],
                thorough=[run("C26_add@round/5", "C26_sub@round/5", "C26_mul@round/5", "C26_cmp", "C26_un", "C26_from", "C26_conv", "C26_scale@round/5", "C26_to@width=%s" % ";".join(map(str, range(1, 129))),
                              "C26_div::E5M2@a.frac/4,b.frac/4", "C26_div::E4M3@a.frac/8,b.frac/8", "C26_rem::E", "C26_fma::E5M2@a.frac/4,b.frac/4,c.frac/4", "C24_one::E5M2", "C24_one::E4M3", "C24_one::Half@round/5",
                              "C26_dd::Pred@op=0;1;2;3;4;5;6;7;8;9", "C26_dd::Int@op=0;1;2;3", "C26_dd::Cmp", t=900, T=3000)],
                only="panic:",
                explain="Any encoding (raw bits, including x87 encodings no operation produces), five rounding modes, of " + ALLFMT + ": every assertion, bounds check, shift, overflow check and panicking call reachable from the operations is an obligation. Division, remainders and fused multiply-add on the 8-bit formats; predicates, comparisons, ilogb and frexp of DoubleDouble.", technique=TECH),
    "C28": dict(quick=[run("C28::E5M2@a.frac/4,b.frac/4", "C28::E4M3@a.frac/8,b.frac/8", "C28_pat::Half@at=0,a.kind=0,round=1", "C28_pat::BFloat@at=0,a.kind=0,round=4", "C28_pat::Single@at=0,a.kind=0,round/5",
                           "C28_pat::Double@at=0,a.kind=0,round/5", "C28_pat::X87@at=0,a.kind=0,round=0;3", "C28_pat::Quad@at=0,a.kind=0,round=0;2", "C28_pat::Half@at=1,a.pat=0;5;10,b.pat=1;7;13,round=0;2", "C28_pat::Single@at=1,a.pat=0;5,b.pat=7,round=1")],
                thorough=[run("C28::E5M2@a.frac/4,b.frac/4", "C28::E4M3@a.frac/8,b.frac/8", "C28_pat@at=0,round/5", "C28_pat::Half@at=1,round/5", "C28_pat::BFloat@at=1,round/5", "C28_pat::Single@at=1,round/5", t=600, T=3000)],
                explain="E5M2 and E4M3: every pair of finite operands, each fraction pair a partition with symbolic exponents and signs, five rounding modes. The wider formats: 16 x 16 significand patterns (all ones, one ulp, divisors of 4 to 64 bits, dense ones), dividend in [1,2), every divisor exponent incl. subnormal divisors, both signs; any dividend exponent for some patterns of Half and Single.", technique=TECH),
    "C29": dict(quick=[run("C29_fmod::E5M2@a.frac/4,b.frac/4", "C29_fmod::E4M3@a.frac/8,b.frac/8", "C29_rem::E5M2@a.frac/4,b.frac/4", "C29_rem::E4M3@a.frac/8,b.frac/8", "C29_pat@gap/10,ieee/2,a.kind=0,b.kind=0,a.pat=0;2;5;10;13,b.pat=1;3;6;7;9;12",
                           "C29_pat@gap=0;1;2;3;8;9,ieee/2,a.pat=1;5;13,b.pat=6;7;12")],
                thorough=[run("C29_fmod::E5M2@a.frac/4,b.frac/4", "C29_fmod::E4M3@a.frac/8,b.frac/8", "C29_rem::E5M2@a.frac/4,b.frac/4", "C29_rem::E4M3@a.frac/8,b.frac/8", "C29_pat@gap/10,ieee/2,a.pat/16,b.pat/16", t=600, T=3000)],
                explain="E5M2 and E4M3: every pair of finite operands, each fraction pair a partition with symbolic exponents and signs, both remainders. The wider formats: 30 pairs of significand patterns (fewer with subnormals), signs and common exponent free, exponents 0, 1, 2, 5, P-1, P, P+3, 2P+1, -1 and -2 apart.", technique=TECH),
    "C30": dict(quick=[run("C30_extreme", "C30_near@at=0;3;4;5;6;8,round/5,d/10", "C30_hard@case/12,round/5,d/3", "C30_top::Single", "C30_top::Half", "C30_top::Double", "C30_top::X87@round/5", "C30_top::Quad@round/5", "C30_top::E5M2@round=0;2", "C30_grammar", "C30_long::Single", "C30_long::BFloat", "C30_long::Half", "C30_long::E", "C30_edge::Half", "C30_edge::Single", "C30_edge::Double", "C30_edge::X87", "C30_edge::Quad",
                           "C30_int::Single@round=0;3", "C30_int::Quad@round=1", "C30_int::Double@round=4,exp=3;7;17;23", "C30_int::X87@round=2,exp=2;9;21", "C30_point::Single@round=0;1", "C30_point::Double@round=0;2", "C30_point::Quad@round=3", "C30_point::E4M3@round=4", t=120)],
                thorough=[run("C30_extreme", "C30_near@at/9,round/5,d/10", "C30_hard@case/12,round/5,d/3", "C30_top@round/5", "C30_grammar", "C30_long", "C30_edge@round/5", "C30_int@round/5,exp/31", "C30_point@round/5", t=1200, T=3000)],
                explain="Decimal literals: one to four free digits and an exponent up to 30; three free digits with the point in any place, leading and trailing zeros; one or two free digits with an exponent around the top of the range of the 16- and 32-bit formats; two free digits at the last two decimal exponents of every format (the overflow boundary); 39 to 45 digits with the first and last free; integers of up to 100 digits next to the middle of two values or to a power of two, the last digit free; numbers d*10^k (k up to 131) within 2^-70 to 2^-240 of such a boundary, found by continued fractions; zeros with any exponent of up to sixteen digits and numbers with an exponent far outside the range; every ASCII text of up to five characters over a zero digit and all non-digit characters. Optional sign, five rounding modes.", technique=TECH),
    "C33": dict(quick=[run("C33_sum@gap=0;2;26;53;54;130,swap/2", "C33_difference@gap=1;54,swap/2", "C33_top@gap=0;1;2;3;10;30;52;53;54;55;60", "C33_scale@op/4,gap=55;56;60;80;106;107;108;130", "C33_over@gap=54;55;80;107,exp=0;1;2;52;53;54;100,swap/2", "C33_brink@a.gap=54;55;80,b.gap=54;60;107,exp=1;30;53;54,swap/2", "C33_near@a.gap=54,b.gap=107,exp=0;1;54,swap/2", "C33_near@a.gap=60,b.gap=54,exp=107;53,swap/2", t=400)],
                thorough=[run("C33_sum@gap/131", "C33_difference@gap/131", "C33_top@gap/131", "C33_scale@op/4,gap/76", "C33_over@gap/108,exp/121,swap/2", "C33_brink@a.gap/108,b.gap=54;55;60;80;107,exp/61,swap/2", "C33_near@a.gap=54;55;60;80;107,b.gap=54;55;60;80;107,exp=0;1;2;10;51;52;53;54;55;80;107;110,swap/2", t=600, T=3000)],
                explain="Sums and differences (both operand orders, all signs) of two doubles with free significands, the larger at each of 6 (thorough: 131) exponent distances from the smaller, whose exponent is free below 2^877, and both next to the top of the range; a normalised double-double with free parts (low part at each of 8, thorough 76, distances, high part in three binades) times a free power of two within 2^100, plus itself and minus itself; a normalised pair in the top binade plus a double of the same sign at each of 7 (thorough: 121) distances, the low part at each of 4 (thorough: 54); two normalised pairs of the same sign with four free fractions at 5 (thorough: 300) combinations of distances, in mid-range, and two pairs whose high parts add up to about 2^1024: the result is normalised and within 2^-104 of the exact sum.", technique=TECH),
    "C34": dict(quick=[run("C34_int@len=1;2;20;52;53;54;55;64;90;105;106;107;108;109;115;127;128,round/5", "C34_to@top=0;1;31;32;52;53;63;64;105;106;127;128,gap=54;70;105;106,round/5,tz=0;1;10;30;51;52", "C34_round@top=0;1;52;53;60;104;105;110,gap=54;55;80;105;106,round/5,tz/53",
                           "C34_hex@digits=0;3;4;5;6;7,point=0;2,exp.at=0;2,round/5", "C34_decimal@exp=0;1;5;10;15;16;22;23;27;30;33;40;42;45,round/5,digits=1,d0/10", t=200)],
                thorough=[run("C34_int@len/129,round/5", "C34_to@top/129,gap=54;55;56;60;70;80;90;100;103;104;105;106,round/5,tz/53", "C34_round@top/111,gap=54;55;56;60;70;80;90;100;103;104;105;106,round/5,tz/53", "C34_hex@digits/8,point/3,exp.at/5,round/5",
                              "C34_decimal@exp/46,round/5,digits/3,d0/10,d1/10", t=600, T=3000)],
                explain="Integers: every signed and unsigned integer of each of 17 (thorough: all 128) bit lengths. Hexadecimal literals of 1 to 30 digits, the first two, the two at the end of the high part and the last three free, at five exponents, with and without a point; decimal integers of one free digit (thorough: two) times a power of ten up to 45. To integers and to integral values: normalised pairs whose sum has at most 106 bits, both signs free, the high part in each of 12 (thorough: 129) binades, the low part at 4 (thorough: 12) distances, with a free fraction ending in a given number of zeros; widths 32, 64, 106 and 128, signed and unsigned. Five rounding modes throughout.", technique=TECH),
    "C31": dict(quick=[run("C31_back::Half@scale/10", "C31_back::E", "C31_back::Single@scale=0;2;5;7,bits=3;7;11", "C31_back::Double@scale=1;4;6;8,bits=5;12", "C31_back::X87@scale=0;3;9,bits=6", "C31_back::Quad@scale=0;3,bits=6", "C31_back::BFloat@scale=0;5,bits=4;8", "C31_pat@a.pat/16", "C31_far@a.pat/16", t=400)],
                thorough=[run("C31_back@scale/10,bits=1;2;3;4;5;6;7;8;9;10;11;12;13;14;15;16", "C31_pat@a.pat/16", "C31_far@a.pat/16", t=1200, T=3000)],
                explain="Values n*2^k, n below 512 or odd below 2^16 and free, k in -8, -5, -3..3, 7, 20 (quick: some bit lengths); 16 significand patterns (all bits used) at 26 exponents of the wide formats, and at both ends of the range and as subnormals up to Double, these as constants; printed in every form and width up to 30 and parsed back.", technique=TECH),
    "C32": dict(quick=[run("C32_frac::Single@exp=0;3;9;15;18,round/5,prefix=0;2;5;6;7;8;9", "C32_frac::Double@exp=0;2;11;14,round/5,prefix=0;4;5;6;7;8;9", "C32_frac::Half@exp=0;4;5;6;7,round/5,prefix=0;2;3;5;6;7;8;9", "C32_frac::E@exp=0;1;3;5,round/5,prefix/10", "C32_frac::BFloat@exp=0;12;17,round=0;2,prefix=0;5;7;8", "C32_frac::X87@exp=0;9,round=0;1;4,prefix=0;5;7;9", "C32_frac::Quad@exp=0;10,round=0;2;4,prefix=0;5;7;8", "C32_near::Half@round/5,at/11,more=1", "C32_near::E5M2@round/5,at/11,more=0", "C32_near::Single@round/5,at=0;2;3;4;5,more=1", "C32_near::Double@round/5,at=6;7;8;9;10,more=1", "C32_near::X87@round=0;2;4,at=6;7;8,more=0", "C32_near::Quad@round/5,at=6;7;8,more=1", "C32_hard@case/12,round/5,d/3", t=300)],
                thorough=[run("C32_frac@exp/20,round/5,prefix/10", "C32_near@round/5,at/11,more/3", "C32_hard@case/12,round/5,d/3", t=1200, T=3000)],
                explain="Literals of a fixed prefix (none, 1, 97, 9 and 17 digits, and 2^(P-1), 2^(P-1)+1, 2^P-1, which make ties, and twenty digits more just above and below a tie) and one free digit, the point at three places, each of 20 (quick: 2 to 5) powers of ten down to 10^-46, three signs, five rounding modes; results from zero over subnormals to the top. The quotient bits of the long division are linear conditions on the free digit, and P+ of them separate its ten values: every partition ends as a single literal. Literals at, 10^-20, 10^-40 or 10^-60 above and below a boundary (a value, or the middle of two: half the smallest subnormal, around the smallest normal number, around one; up to 165 digits), and numbers d/10^k within 2^-70 to 2^-250 of a boundary (from continued fractions), so that the second and third attempts of the parser are needed.", technique=TECH),
    "C35": dict(quick=[run("C35_all::E4M3@precision.given=0,a.frac/8", "C35_all::E5M2@precision.given=0,a.frac/4", "C35_all::E5M2@precision.given=1,precision=0;1;2;3;6,a.frac/4", "C35_int::Half@precision.given=0,scale/10", "C35_int::Single@precision.given=0,scale=0;2;5;6,bits=3;7;11",
                           "C35_int::Double@precision.given=1,precision=1;2;3,scale=0;1;2;4;8,bits=4;5;8;12", "C35_int::BFloat@precision.given=1,precision=1,scale=3,bits=8", "C35_pat::Single@precision.given=0,a.pat=0;1;2;5", "C35_pat::Double@precision.given=1,precision=3;6,a.pat=0;5", "C35_pat::X87@precision.given=0,a.pat=0;5;14", "C35_pat::Quad@precision.given=0,a.pat=0;5;14",
                           "C35_sub@precision.given=0", "C35_sub::Half@precision.given=1,precision=0;2", "C35_dd@precision.given=0,a.pat=0;1;5;14", "C35_dd@precision.given=1,precision=0;4;20,a.pat=0;5", t=200)],
                thorough=[run("C35_all::E@precision.given=0,a.frac/8", "C35_all::E@precision.given=1,precision/21,a.frac/8", "C35_int@precision.given=0,scale/10,bits=1;2;3;4;5;6;7;8;9;10;11;12;13;14;15;16", "C35_int@precision.given=1,precision=0;1;2;3;4;5;6;9;17,scale/10,bits=3;7;9;12", "C35_pat@precision.given=0,a.pat/16", "C35_pat@precision.given=1,precision/21,a.pat/16", "C35_sub", "C35_dd@precision.given=0,a.pat/16", "C35_dd@precision.given=1,precision/21,a.pat/16", t=1200, T=3000)],
                explain="Values n*2^k as for C31 with n free (the digits are linear in it: every division by ten names quotient and digit); every value of E5M2 and E4M3; 16 significand patterns at 26 exponents for the wide formats, 8 subnormal patterns, and 16 patterns with 6 low parts for DoubleDouble, these with constant digits. Width (none, 0, or free up to 30), alternate form and mostly sign are free, precision none or each of 0 to 20 (quick: a few). The formatter's output methods, the standard library's integer formatting and fmt::write are replaced by contracts that record the text.", technique=TECH),
}

NA = {
}

