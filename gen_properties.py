#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script only so that the text stays readable)."""
import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None,hook=None):
    P.append(dict(id=id,title=title,statement=statement,
        quantifier=dict(over=over,text=qtext),why_tests_cant=why,
        anchors=dict(files=files,state=state or [],mechanism=mech,observe_at=observe or [],hook_needed=hook)))
m=lambda name,where:dict(name=name,where=where)

p("C01","Parsing accepts exactly the numeric grammar and yields the exact value",
 "A string parses successfully exactly when, after trimming ASCII whitespace, it is `NaN` in any letter case or an optionally signed decimal literal (digits with an optional point, at least one digit, optional e/E exponent with optional sign and at least one digit) whose value fits the numeric format (an exponent of magnitude 2^30-1 or more is always out of range). "
 "The parsed numeric has exactly that mathematical value and a display scale equal to max(0, number of fractional digits - exponent). "
 "Empty input, malformed input and out-of-range input are reported as the empty, invalid and overflow error respectively; parsing never panics and never yields another value.",
 ["inputs"],"every string",
 "Unit tests list a few dozen literals; the grammar interacts with 4-digit grouping (offset of the point modulo 4, leading zeros, exponent shifts), so almost every alignment/exponent/whitespace combination is untested.",
 ["src/parse.rs","src/var.rs","src/binary.rs"],
 [m("sign/digits/exponent scanner","src/parse.rs parse_decimal, extract_exponent, from_str"),m("regrouping of decimal digits into base 10000","src/parse.rs parse_str"),m("range check","src/var.rs make_result")],
 observe=["str::parse::<NumericBuf>()","NumericParseError"])

p("C02","Text output is the canonical decimal form and parses back to the same numeric",
 "The displayed text of a finite numeric is an optional minus sign, its integer digits without superfluous leading zeros (a single 0 when there are none), and, exactly when the scale is positive, a point followed by exactly `scale` digits; it denotes the exact value, zero is never shown with a sign, and NaN displays as `NaN`. "
 "Parsing the displayed text gives back a numeric with identical value, scale and bytes.",
 ["inputs"],"every representable numeric",
 "Tests print a handful of values; correctness depends on the position of the point inside a 4-digit group, on suppressed trailing groups and on scales larger or smaller than the stored digits.",
 ["src/var.rs","src/num.rs","src/parse.rs"],
 [m("digit group writer","src/var.rs NumericVar::write"),m("parser","src/parse.rs parse_str")],
 observe=["Display for Numeric/NumericBuf","to_string"])

p("C03","The byte representation is PostgreSQL's canonical on-disk numeric format",
 "The bytes of every numeric the library produces are exactly PostgreSQL's on-disk encoding of its value and scale (length word, short header when scale <= 63 and weight is in [-64, 63], otherwise long header, base-10000 digits without leading or trailing zero groups, zero positive with weight 0, two-byte NaN), so two numerics have equal bytes exactly when they have equal value and scale. "
 "Reinterpreting those bytes, in any suitably aligned buffer, gives a numeric with the same value, scale, sign and behaviour, and copying it to an owned numeric reproduces the same bytes. "
 "This holds in both build configurations (default little-endian length word and the big-endian length word feature).",
 ["inputs","configurations"],"every representable numeric, every way of producing it, both varlena configurations",
 "Only one unit test touches the header; the short/long boundary, every operation's strip/header path and the big-endian feature are not exercised at all.",
 ["src/binary.rs","src/data.rs","src/num.rs","src/var.rs"],
 [m("header encoders/decoders","src/binary.rs NumericShort::set_header, NumericLong::set_header, as_var"),m("header placement in front of the digits","src/data.rs set_header"),m("strip before storing","src/var.rs strip, make_result")],
 observe=["as_bytes","Numeric::from_bytes_unchecked","to_owned"])

p("C04","Addition and subtraction are exact",
 "For all finite numerics a and b, a + b and a - b equal the exact mathematical sum and difference, with display scale equal to the larger of the two input scales. "
 "A result that is mathematically zero is a non-negative zero of that scale. "
 "If the exact result does not fit the format, the checked form returns None and the operator panics.",
 ["inputs"],"all pairs of finite numerics",
 "Tests use a few dozen pairs; carries/borrows across group boundaries, gaps between operands (no overlapping digits) and sign/magnitude dispatch have unboundedly many shapes.",
 ["src/var.rs","src/num.rs","src/ops.rs"],
 [m("absolute add/sub with carry/borrow","src/var.rs add_abs, sub_abs"),m("sign dispatch","src/var.rs add_common, sub_common, cmp_abs")],
 observe=["checked_add","checked_sub","+","-"])

p("C05","Multiplication is exact",
 "For all finite numerics a and b, a * b equals the exact mathematical product, with display scale equal to the sum of the input scales. "
 "If that value or scale does not fit the format, the checked form returns None and the operator panics; no other outcome (wrap-around, truncation, lost carry, debug-only abort) is possible.",
 ["inputs"],"all pairs of finite numerics",
 "The delayed carry normalisation only triggers for operands of more than ~20 large digit groups, which no test reaches; operand-length asymmetry and zero groups multiply the shapes.",
 ["src/var.rs","src/num.rs"],
 [m("accumulator with deferred carries (max_dig)","src/var.rs mul_common"),m("shorter operand first","src/var.rs mul_common")],
 observe=["checked_mul","*"])

p("C06","Division is correctly rounded at PostgreSQL's result scale",
 "For finite a and nonzero finite b, a / b equals the exact quotient rounded half away from zero at the result scale, where the scale is max(scale a, scale b, 16 - 4*w) clamped to [0, 1000] and w is the difference of the base-10000 weights of a and b, less one when a's leading digit group is not greater than b's. "
 "Truncating division equals the exact quotient truncated toward zero, with scale 0. "
 "Division by zero gives None from the checked forms and panics from the operator.",
 ["inputs"],"all pairs of finite numerics",
 "Rare quotient-digit corrections (Knuth's add-back, about 3 in 10000 digit steps) and the scale selection are not reached by the few dozen tested quotients.",
 ["src/var.rs","src/num.rs"],
 [m("schoolbook division with trial quotient correction","src/var.rs div_common"),m("scale choice","src/var.rs select_div_scale"),m("zero test","src/var.rs div_common, src/num.rs overflowing_div")],
 observe=["checked_div","checked_div_trunc","/"])

p("C07","Remainder agrees with truncated division",
 "For finite a and nonzero finite b, a % b equals a - trunc(a/b)*b exactly: it has the sign of a (or is zero), its magnitude is smaller than that of b, and its display scale is the larger of the two input scales. "
 "A zero divisor gives None from the checked form and panics from the operator.",
 ["inputs"],"all pairs of finite numerics",
 "Exactness depends on the integer quotient being right for operands of very different size and scale; tests cover about twenty pairs.",
 ["src/var.rs","src/num.rs"],
 [m("mod via truncated division","src/var.rs mod_common")],
 observe=["checked_rem","%"])

p("C08","Comparison is one total order that follows numeric value, NaN greatest",
 "For all numerics, comparison follows mathematical value regardless of scale and representation; NaN equals NaN and is greater than every other numeric. "
 "All comparison spellings (==, !=, <, <=, >, >=, cmp, partial_cmp, max/min/sort) between owned and borrowed numerics agree with this one order, which is reflexive, antisymmetric, transitive and total.",
 ["inputs"],"all pairs and triples of numerics, all operand type combinations",
 "Tests compare a few values; digit-by-digit comparison with differing weights, lengths and signs has many paths and sixteen trait impls.",
 ["src/ops.rs","src/num.rs","src/var.rs"],
 [m("sign/weight/digit comparison","src/var.rs cmp_common, cmp_abs"),m("NaN handling","src/num.rs cmp"),m("trait impls","src/ops.rs")],
 observe=["PartialEq/Eq/PartialOrd/Ord for Numeric and NumericBuf"])

p("C09","Equality, hashing and normalized text coincide",
 "Any two numerics compare equal if and only if their normalized strings are equal, and equal numerics feed identical data to any hasher, whatever their scales, representations and owned/borrowed type. "
 "The normalized string is the displayed value without trailing fractional zeros and without a trailing point; hashing distinguishes numerics that differ in digits, sign or magnitude.",
 ["inputs"],"all pairs of numerics",
 "Hash/Eq coherence quantifies over pairs of different representations of one value; tests hash a handful of pairs.",
 ["src/num.rs","src/var.rs","src/ops.rs"],
 [m("hash of stripped digits, weight and sign","src/num.rs Numeric::hash"),m("trailing zero removal","src/var.rs normalize")],
 observe=["Hash","normalize","HashMap lookups via Borrow<Numeric>"])

p("C10","Rounding, truncation, ceiling and floor are exact",
 "round(s) is the input rounded half away from zero to s decimal places and trunc(s) is the input truncated toward zero to s places, where s is first clamped to [-1000, 1000]; the result's scale is max(s, 0). "
 "ceil and floor are the least integer not below and the greatest integer not above the input (ceil and floor of an integral or zero value is that value), with scale 0. "
 "A rounded value that does not fit the format panics; NaN stays NaN.",
 ["inputs"],"every numeric and every i32 scale",
 "Carry propagation out of the top group, cuts inside a 4-digit group and negative scales beyond the number's length form many cases; tests try some dozens.",
 ["src/var.rs","src/num.rs","src/data.rs"],
 [m("in-place decimal rounding with carry","src/var.rs round_common"),m("truncation","src/var.rs trunc_common"),m("spare rounding digit","src/data.rs reserve_rounding_digit"),m("ceil/floor","src/var.rs ceil_common, floor_common")],
 observe=["round","round_mut","trunc","trunc_mut","ceil","floor"])

p("C11","Typmod values and typmod application follow precision and scale",
 "A type modifier can be created exactly for 1 <= precision <= 1000 and 0 <= scale <= precision, and its integer value, extraction and text give that precision and scale back. "
 "Applying it to a finite numeric rounds the value half away from zero to the typmod's scale and reports overflow exactly when the rounded value needs more than precision - scale integer digits (or does not fit the format); the value is rounded in either case, except that a rounded value that does not fit the format leaves the old value. "
 "The default type modifier and a NaN value change nothing and report no overflow.",
 ["inputs"],"every numeric and every precision/scale",
 "The overflow test mixes rounding carry, leading decimal digits of the top group and stripped groups; tests cover a few (precision, scale, value) triples.",
 ["src/typmod.rs","src/var.rs","src/num.rs"],
 [m("packing","src/typmod.rs"),m("round then bound check","src/var.rs apply_typmod"),m("buffer hand-back","src/num.rs apply_typmod")],
 observe=["Typmod::*","NumericBuf::apply_typmod"])

p("C12","Integer conversions are exact, rounded and range checked",
 "Converting any Rust integer or bool to a numeric and back is the identity, and the numeric has exactly that value with scale 0. "
 "Converting a numeric to an integer type rounds half away from zero and succeeds exactly when the rounded value lies in the type's range; otherwise (and for NaN) it returns an error and never a wrapped value.",
 ["inputs"],"every value of every integer type, every numeric",
 "Boundary behaviour at MIN/MAX of twelve types, rounding at the boundary and stripped trailing groups is only spot-tested.",
 ["src/convert.rs"],
 [m("digit loop with overflow checks on a negative accumulator","src/convert.rs into_signed, into_unsigned"),m("integer to digits","src/convert.rs unsigned_to_var")],
 observe=["From<int> for NumericBuf","TryFrom<Numeric*> for int"])

p("C13","Floating-point conversions are nearest, range checked and NaN preserving",
 "Converting a finite f64 (f32) to a numeric gives exactly the value of its %.15g (%.6g) decimal rendering; NaN gives NaN and infinities are rejected. "
 "Converting a finite numeric to f64 or f32 gives the representable number nearest to the exact decimal value (ties to even), a magnitude too large for f64 gives the infinity of that sign and one too small gives zero, while a magnitude too large for f32, or nonzero but rounding to zero in f32, is an error; NaN gives NaN.",
 ["inputs"],"every float bit pattern, every numeric",
 "Correct rounding depends on the whole digit string; tests sample some values per type.",
 ["src/convert.rs"],
 [m("formatting through libc printf","src/convert.rs from_floating"),m("decimal to binary conversion","src/convert.rs TryFrom<&NumericVar> for f32/f64")],
 observe=["TryFrom<f32/f64> for NumericBuf","TryFrom<Numeric*> for f32/f64"])

p("C14","Square root is accurate at its documented scale",
 "For every non-negative finite numeric x, sqrt(x) terminates and is within one unit of its last displayed decimal place of the true square root; perfect squares give the exact root. "
 "Its scale is max(scale of x, 16 - (2*(w+1) - 1)) clamped to [0, 1000], where w is the base-10000 weight of x (0 for zero). "
 "A negative argument panics.",
 ["inputs"],"every non-negative numeric",
 "Convergence of the Newton iteration, its starting guess and its rounding depend on every digit; tests try a few roots.",
 ["src/var.rs","src/num.rs"],
 [m("Newton iteration","src/var.rs sqrt_common"),m("fast approximate division","src/var.rs div_fast_common")],
 observe=["sqrt"])

p("C15","Exponential and logarithms are accurate and domain checked",
 "exp(x), ln(x), log(x, base), log2(x) and log10(x) terminate and lie within one unit of the last displayed decimal place of the true value, with a scale that gives about 16 (15 for a logarithm to a base) significant digits, is never below the input scales unless capped, and lies in [0, 1000]. "
 "exp returns None exactly when x >= 6000 and gives zero when x <= -6000 (the limits the code sets), logarithms of zero or negative numbers and of base zero or negative panic, and log base 1 panics as a division by zero.",
 ["inputs"],"every numeric argument in the domain",
 "Accuracy is a statement about all digits for all inputs; tests compare a few dozen constants.",
 ["src/var.rs","src/num.rs"],
 [m("argument reduction and Taylor series","src/var.rs exp_common, ln_common"),m("scale estimation","src/var.rs estimate_ln_dweight, log_common, exp"),m("fast division","src/var.rs div_fast_common")],
 observe=["exp","ln","log","log2","log10"])

p("C16","Power is accurate, follows the special-case rules and reports overflow",
 "x.pow(y) for finite x, y lies within one unit of the last displayed decimal place of x^y; for an integral y that fits i32 the scale is max(16, scale of x) capped at 1000, and exact results are exact. "
 "x^0 is 1 (also for zero and NaN x), 1^NaN is 1, every other NaN argument gives NaN, 0^positive is 0; zero to a negative power and a negative base with a non-integral exponent panic. "
 "Results too large for the format give None, results too small give zero; a non-integral exponent (or one beyond i32) is also limited by the range of exp: y*ln x >= 6000 gives None and <= -6000 gives zero.",
 ["inputs"],"all pairs of numerics",
 "Exponent bit patterns, precision estimation and overflow/underflow estimates form a large two-dimensional space; tests sample a few dozen points.",
 ["src/var.rs","src/num.rs"],
 [m("binary powering with precision estimate","src/var.rs power_int"),m("exp(y ln x)","src/var.rs power_common"),m("special cases","src/var.rs pow")],
 observe=["pow"])

p("C17","Factorial is exact and bounded",
 "factorial(n) is exactly n! with scale 0 for 2 <= n <= 32177, is 1 for every n <= 1 including negative n, and is None for every larger n.",
 ["inputs"],"every i64",
 "Tests check a few small n; exactness must survive tens of thousands of multi-precision multiplications and hold up to the overflow limit.",
 ["src/var.rs","src/num.rs"],
 [m("product loop and limit","src/var.rs factorial"),m("multiplication","src/var.rs mul_common")],
 observe=["NumericBuf::factorial"])

p("C18","Sign operations, sign queries and increment are exact",
 "negate flips the sign of a nonzero value and leaves zero unchanged, abs drops the sign, both keeping value and scale otherwise; signum is -1, 0 or 1 with scale 0; inc adds exactly one keeping the scale; NaN maps to NaN in all of them. "
 "is_nan, is_negative, is_positive and scale report the value's class, sign (zero counts as positive, NaN as neither) and display scale (none for NaN).",
 ["inputs"],"every numeric",
 "Small facts, but over every representation (short/long header, borrowed/owned buffer, zero with scale, carries out of the top group).",
 ["src/num.rs","src/var.rs","src/ops.rs"],
 [m("sign flips in place","src/num.rs negate_mut, abs_mut"),m("inc via addition","src/var.rs inc")],
 observe=["negate","negate_mut","unary -","abs","abs_mut","signum","inc","is_nan","is_negative","is_positive","scale"])

p("C19","NaN propagates through every operation",
 "Whenever any operand is NaN, every arithmetic and mathematical operation returns NaN without panicking or reporting an error (including division and remainder by zero, logarithm and square root), except that NaN^0 = 1 and 1^NaN = 1. "
 "NaN survives copying, text, bytes, serialization, typmod application and float conversion as NaN, and is rejected with an error by integer conversion.",
 ["inputs"],"every operation, every position of a NaN operand, every other operand",
 "Each of about sixty entry points needs its own NaN guard; a missing guard reads NaN as the number zero, and tests cover only some of them.",
 ["src/num.rs","src/var.rs","src/ops.rs","src/convert.rs"],
 [m("per-entry-point NaN guards","src/num.rs"),m("pow special cases","src/var.rs pow")],
 observe=["all public operations with a NaN operand"])

p("C20","Out-of-range results are always reported, never wrapped or truncated",
 "When the exact or rounded result of an operation exceeds the format limits (more than 131072 integer digits or a display scale above 16383), the operation says so: checked forms return None, operators and infallible forms panic, parsing and conversion return an overflow error, typmod application returns true. "
 "At and just inside the limits the correct value is returned.",
 ["inputs"],"every operation with operands at, just below and just above the limits of weight and scale",
 "Tests contain one or two overflow literals; carries that push the weight over the limit, scale sums and zero operands at the limit are untested.",
 ["src/var.rs","src/num.rs","src/parse.rs","src/ops.rs"],
 [m("range check when building a result","src/var.rs make_result"),m("early overflow tests","src/var.rs power_int, exp_common, factorial; src/parse.rs extract_exponent")],
 observe=["all public operations"])

p("C21","All spellings of an operation agree and leave their operands unchanged",
 "Every spelling of an operation - owned, borrowed and mixed operand types, operator, compound assignment and checked form, in-place and copying form, owned and borrowed receiver - returns byte-identical results or fails alike for the same operand values. "
 "Operands passed by reference keep their bytes, also when the same numeric is used as both operands.",
 ["inputs","programs"],"every operation spelling and operand pair, including aliased operands",
 "There are over a hundred hand-written trait impls; a swapped operand or wrong delegate in one of them only shows for that operand type combination.",
 ["src/ops.rs","src/num.rs","src/convert.rs"],
 [m("delegating trait impls","src/ops.rs"),m("in-place variants","src/num.rs")],
 observe=["std::ops impls","*Assign impls","*_mut methods","checked_* methods","TryFrom impls for owned/borrowed"])

p("C22","No public safe operation sequence corrupts, leaks or misuses memory",
 "No sequence of safe public operations reads or writes outside a live allocation, frees memory twice, with a different layout, or after use, leaks, depends on uninitialised memory, or makes a misaligned access. "
 "This includes sequences in which some operations fail or panic and are recovered from.",
 ["histories","inputs","fault_sequences"],"every sequence of safe public calls",
 "Buffers are managed through raw pointers with null hand-over, manual offsets and unchecked indexing; tests run without a memory checker and never after a recovered panic.",
 ["src/data.rs","src/num.rs","src/binary.rs","src/var.rs"],
 [m("manual buffer ownership","src/data.rs buf_alloc, buf_free, buf_copy; src/num.rs Drop, as_var_owned"),m("unchecked indexing","src/var.rs")],
 observe=["allocator","result bytes"])

p("C23","Serialization round-trips",
 "Serializing a numeric and deserializing it gives back the same bytes: the display text in human-readable formats, the binary representation in binary formats, for owned and borrowed types. "
 "Deserializing text that is not a numeric, or bytes that are not a numeric encoding, gives an error; it never panics or yields an invalid numeric.",
 ["inputs"],"every numeric, every text or byte input",
 "Tests round-trip a few values and never feed malformed input.",
 ["src/num.rs"],
 [m("serde impls","src/num.rs Serialize/Deserialize")],
 observe=["serde_json","bincode"])

p("C24","Scientific notation denotes the exact value in normalised form",
 "The {:e} and {:E} text of any finite numeric is an optionally signed significand with one nonzero digit before the point and no trailing zeros after it (0e+00 for zero), the letter e or E, a sign and at least two exponent digits, and it denotes exactly the numeric's value. "
 "Parsing it back yields an equal numeric; NaN prints NaN; formatting never panics.",
 ["inputs"],"every representable numeric",
 "Depends on the exponent range, leading/trailing zeros of the first and last group and a division by a power of ten; tests print about ten values.",
 ["src/var.rs","src/num.rs"],
 [m("exponent and significand","src/var.rs write_sci"),m("significant digit count","src/var.rs select_sci_scale")],
 observe=["LowerExp","UpperExp"])

p("C25","Concurrent read-only use of numerics behaves as if sequential",
 "Numerics may be shared by reference between threads: whatever the interleaving, concurrent operations on shared numerics (arithmetic, comparison, hashing, formatting, conversion, transcendental functions, including first use) return exactly what they return when run alone, and leave the shared numerics unchanged.",
 ["schedules"],"every interleaving of two threads' operations on shared numerics",
 "Tests are single threaded; shared constants are created lazily and shared values are accessed through raw pointers declared thread-safe by hand.",
 ["src/num.rs","src/data.rs","src/var.rs"],
 [m("unsafe Send/Sync","src/num.rs, src/data.rs"),m("lazily initialised constants","src/var.rs lazy_static")],
 observe=["results per thread","bytes of shared operands"])

p("C26","A failed operation leaves its operands valid and unchanged or correctly updated",
 "After any operation that panics or reports failure (overflow, division by zero, domain error, failed typmod), every numeric involved is still a valid numeric that can be read, used and dropped. "
 "Operands passed by shared reference and targets of failed compound assignments keep their value; a value passed to failed typmod application or to a panicking in-place rounding holds either its old or its rounded value.",
 ["fault_sequences","histories"],"every failing operation at every point of an operation history",
 "Tests stop at the first panic (should_panic) or None and never look at the operands afterwards.",
 ["src/num.rs","src/ops.rs"],
 [m("buffer hand-over around in-place operations","src/num.rs as_var_owned, round_mut, apply_typmod"),m("compute then assign","src/ops.rs *Assign")],
 observe=["operands after catch_unwind"])

p("C27","Results depend only on operand values, not on how operands were produced",
 "Every operation's result is a function of the value and scale of its operands: operands obtained by parsing, conversion, borrowing bytes, cloning, or as results of any previous operation sequence give byte-identical results. "
 "Consequently replaying any sequence of operations, in any order relative to unrelated operations, yields the same results.",
 ["histories"],"all operation histories leading to the same operand values",
 "Numerics carry hidden state (buffer capacity, digit offset, spare rounding digit) that depends on history; tests only use freshly parsed operands.",
 ["src/data.rs","src/num.rs","src/var.rs"],
 [m("digit offset and spare digit","src/data.rs offset, reserve_rounding_digit"),m("in-place ops on owned buffers","src/num.rs into_var, as_var_owned")],
 state=[dict(name="buffer offset/length",meaning="where the digits start inside the allocation; 0..n spare groups in front",where="src/data.rs")],
 observe=["result bytes after every history"])

open("/verif/properties.jsonl","w").write("".join(json.dumps(x)+"\n" for x in P))
print(len(P))
