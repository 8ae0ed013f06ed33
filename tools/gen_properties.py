import json,re
H="include/boost/safe_numerics/"
def P(id,title,statement,over,qtext,why,files,mech,state=None,observe=None):
    a={"files":[H+f for f in files],"mechanism":[{"name":n,"where":H+w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":"the stored value","where":H+"safe_base.hpp"} for n in state]
    if observe: a["observe_at"]=observe
    return {"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a}
L=[
P("C01","Checked primitives return the exact result or a matching error code",
"For every built-in integer type R, checked::add, subtract, multiply, divide, modulus, minus, left_shift, right_shift and bitwise_or/and/xor/not return a success whose value is exactly the mathematical (for bitwise: the C++) result whenever that result is representable in R and the operation is defined, and otherwise an error. The error names the failure: positive_ or negative_overflow_error by the side on which the exact result leaves R, domain_error for a zero divisor, a shift error for a negative or too large shift count or a negative shifted value. The comparison functions checked::less_than, equal and the others compare the values, and no call crashes, hangs or returns a wrong value as a success.",
["inputs"],"every built-in integer type from 8 to 64 bits, signed and unsigned, and every pair of operand values",
"the test tables use about a dozen extreme values per type; an operation is wrong on one pair in 2^16..2^128, and the multiply, shift and modulus code has different branches per width and sign",
["checked_integer.hpp","checked_default.hpp"],
[("checked_operation<R,F>::add/subtract/multiply/divide/modulus/left_shift/right_shift/bitwise_*","checked_integer.hpp"),("checked:: function interface","checked_default.hpp")],
observe=["checked_result<R> returned by checked::add etc."]),
P("C02","safe_compare is mathematically exact for every pair of integer types",
"safe_compare::less_than, greater_than, less_than_equal, greater_than_equal, equal and not_equal on any two built-in integer types return what comparing the two mathematical integers returns, whatever the types' widths and signs. The six functions agree with one another.",
["inputs"],"all ordered pairs of built-in integer types, all pairs of values",
"C++'s usual conversions make exactly the mixed-sign, mixed-width corner cases wrong, and tests sample a few constants per type pair",
["safe_compare.hpp"],
[("safe_compare_detail::less_than/equal","safe_compare.hpp")]),
P("C03","Conversions preserve the mathematical value or report an error",
"Constructing or assigning a safe type (full-width or range) from any built-in integer, safe integer or safe literal, converting a safe value to a built-in integer type, and checked::cast keep the mathematical value whenever the target can hold it and never report an error in that case. Otherwise they report an error through the target's exception policy: positive_overflow_error when the value is above the target's maximum; when it is below the minimum, negative_overflow_error, or domain_error for a signed value that does not fit an unsigned target.",
["inputs","programs"],"all pairs of source and target integer types and sub-ranges of them whose ranges overlap, all source values",
"the outcome depends on the pair of types and ranges (which select check or no-check code at compile time) and on the value; tests sample the full-width types with a few extremes",
["checked_integer.hpp","safe_base_operations.hpp","safe_base.hpp"],
[("heterogeneous_checked_operation::cast_impl","checked_integer.hpp"),("validate_detail::return_value (check/no-check choice)","safe_base_operations.hpp"),("safe_base constructors, operator=, operator R","safe_base_operations.hpp")]),
P("C04","Native safe arithmetic is exact in the C++ result type or reports",
"With the native promotion policy and a throwing exception policy, a op b (+ - * / % << >> | & ^), unary + - ~, ++/-- and op= where at least one operand is a safe integer yield a safe value whose base type is the C++ type of the same built-in expression and whose value is exactly the mathematical (bitwise: the C++) result, or throw std::system_error. The exception is thrown whenever that result is not representable in the result type, the divisor is zero, or a shift has a negative operand or a count not below the width; it is never thrown when both operands and the result are representable and the operation is defined, and its error code names the failure.",
["inputs","programs"],"all ordered pairs of integer types with one or both operands safe, all operators, all pairs of values",
"the tests check a small table of values per type pair for throw/no throw and hardly ever check the value; check/no-check code is selected per type pair at compile time",
["safe_base_operations.hpp","checked_integer.hpp","native.hpp","safe_base.hpp"],
[("addition_result ... bitwise_xor_result","safe_base_operations.hpp"),("casting_helper","safe_base_operations.hpp"),("native::*_result","native.hpp")]),
P("C05","A safe object's value always lies within its type's numeric_limits",
"Any safe object a program can obtain without an error having been reported (by construction, assignment, any operator on full-width, range-limited or literal operands, or chains of them) holds a value within [numeric_limits<S>::min(), numeric_limits<S>::max()] of its own type S, and that value is the exact result. So the static range of a result type encloses every value the operation can produce for operands within their types' ranges, and a later check skipped because of that range cannot hide an error.",
["inputs","programs"],"all pairs of safe range types, literals and built-in types, all operators, both the native and automatic policies, all operand values; and two-operator chains of these",
"result ranges are computed by templates per pair of operand ranges; tests use full-width types where the computed range is the whole type and never look at the range of a result type",
["safe_base_operations.hpp","interval.hpp","checked_result_operations.hpp","utility.hpp"],
[("get_r_type_interval / return_interval / skip_validation","safe_base_operations.hpp"),("interval operators","interval.hpp"),("round_out for bitwise results","utility.hpp")],
state=["safe_base::m_t"]),
P("C06","The automatic policy widens so that arithmetic does not overflow",
"With the automatic promotion policy the result of + - * / % << >> is exact whenever operands and result fit the widest integer type of the documented signedness (unsigned when both operands are unsigned, except that subtraction is always signed and shifts follow the left operand); only then-unrepresentable results, zero divisors and invalid shifts are reported. If the operand ranges show that the result always fits, no error is ever reported; for + - * the result's base type is the smallest one of that signedness that holds the result range.",
["inputs","programs"],"pairs of full-width and range-limited automatic safe types, all operators, all operand values",
"the result type is a function of the operand ranges, so each pair of ranges is different code; tests use full-width types with extreme values",
["automatic.hpp","safe_base_operations.hpp","interval.hpp","utility.hpp"],
[("automatic::*_result","automatic.hpp"),("signed_stored_type/unsigned_stored_type","utility.hpp")]),
P("C07","Comparison of safe values is mathematically correct and consistent",
"For any two integers of which at least one is safe (full-width, range or literal; native, automatic or cpp policy), == != < > <= >= return the mathematical comparison of the two values, or throw std::system_error when the policy's common type cannot hold an operand; they never throw when that type holds both operands. Whenever they return, trichotomy holds and the six operators agree, whichever operand is on the left.",
["inputs","programs"],"all pairs of safe and built-in types, ranges and policies; all value pairs",
"the static range comparison that short-circuits the run-time one depends on the pair of ranges; tests compare full-width types at a few values",
["safe_base_operations.hpp","interval.hpp","checked_result_operations.hpp"],
[("less_than_result / equal_result","safe_base_operations.hpp"),("interval operator</> and intersect","interval.hpp")]),
P("C08","Failures reach the handler the policy assigns; ignored ones act as built-ins",
"A detected error is delivered to the exception policy action of its category (arithmetic error, implementation-defined behaviour, undefined behaviour, uninitialized value) and to no other, with the code and a non-empty message that describe it; a successful operation calls no handler. throw_exception throws std::system_error carrying that code; ignore_exception and returning custom handlers let the operation continue with the value the same expression on built-in types (operands converted to the result type) would have, wherever that is defined.",
["inputs","configurations","fault_sequences"],"all assignments of throw/ignore/recording handlers to the four categories, all operators, conversions and default construction, all failing inputs in the alphabets",
"tests run two policies at a few values and never compare the value that follows an ignored error",
["exception_policies.hpp","safe_base_operations.hpp","exception.hpp"],
[("dispatch / dispatch_case / dispatch_and_return","safe_base_operations.hpp"),("exception_policy, make_safe_numerics_action","exception_policies.hpp"),("fallback after rx.exception()","safe_base_operations.hpp")]),
P("C09","Strong guarantee over any history: a failed statement changes nothing",
"For any sequence of statements over safe variables (assignments, op=, ++/--, mixed-type expressions, conversions, swaps) each statement either behaves exactly as on ideal integers restricted to the variables' ranges, or throws and leaves every variable with its old value. op= and prefix ++/-- modify and return the left operand itself; postfix ++/-- return the old value.",
["histories"],"all statement histories over two variables: every reachable pair of values times every statement of the alphabet, for several pairs of variable types and policies",
"tests run single operations from fresh variables; they do not continue after a failure or look at the variables after it",
["safe_base.hpp","safe_base_operations.hpp"],
[("operator=, ++, --, op=","safe_base.hpp"),("operator+= ... operator^=","safe_base_operations.hpp")],
state=["safe_base::m_t of each variable"]),
P("C10","Stream extraction validates every input and leaves the object intact on failure",
"Extracting a safe integer from a stream stores the decimal value the text denotes when the text starts (after white space) with an integer within the type's range; for anything else (no digits, out of range, negative for unsigned, empty stream, already failed stream) it throws std::system_error and leaves the variable unchanged. Insertion writes the decimal value (formatting flags act as for built-in integers), so that reading it back yields the same value for every integer type, 8-bit ones included, and successive extractions from one stream yield successive values and consume nothing else. make_range_value and make_result_display show the type's limits and the value, and leave the stream's base decimal.",
["inputs","histories"],"all strings up to a length bound over an alphabet of signs, digits, blanks and letters, all safe integer types including ranges, and sequences of extractions from one stream",
"one test reads a handful of strings",
["safe_base_operations.hpp","safe_base.hpp"],
[("safe_base::input / output","safe_base_operations.hpp"),("range_value, result_display","range_value.hpp")]),
P("C11","checked_result arithmetic is sound extended-integer arithmetic",
"checked_result<R> is arithmetic on extended integers: the values of R, below-minimum (minus infinity: any integer of sufficiently large negative magnitude), above-maximum (plus infinity) and indeterminate (anything). For + - * / % << >> and unary + - the result covers every value the operation gives on integers its operands stand for (shifts by a negative count shift the other way), two known values give the exact result when it is representable in R and otherwise the overflow error of the right side (a zero divisor: an error), | & ^ ~ of known values are exact and otherwise in error, and conversion between element types keeps representable values and errors. Comparisons are definite for known values and otherwise true or false only if that is right for everything the operands stand for.",
["inputs"],"all operator and operand classes: known values exhaustively for 8-bit types and over boundary alphabets for wider ones, and each error state, for every integer type",
"the tests encode tables for six known values per type; soundness must hold for all values a class stands for, and interval analysis relies on it",
["checked_result.hpp","checked_result_operations.hpp"],
[("operator tables on sum_value_type/product_value_type","checked_result_operations.hpp"),("checked_result accessors","checked_result.hpp")]),
P("C12","Interval operations enclose and interval predicates are right",
"For intervals of integers, + - * / % << >> and | (union), & (intersection) return an interval that contains the result for every pair of points of the operands for which the operation is defined and representable, and is tight for + - *. includes, excludes, <, >, <=, >=, ==, != and intersect are definitely true (false) only if the statement holds (fails) for all points. Inserting an interval of integers into a stream writes both limits as numbers.",
["inputs"],"all pairs of intervals over a small integer domain with all points of each, and boundary intervals of wider types, over built-in integers and checked_result",
"one test with a few intervals; enclosure is a for-all-points property",
["interval.hpp","utility.hpp"],
[("interval operators and predicates","interval.hpp"),("utility::minmax","utility.hpp")]),
P("C13","A check is omitted only if it cannot fail, and trap policies reject exactly that",
"For every operation, conversion and construction, error-handling code for arithmetic errors is instantiated whenever some operand values within the operand types' ranges make it fail; consequently a program using a trap policy that compiles can never fail at run time. Conversely, + - * with the native or automatic policy and conversions whose result provably fits instantiate no handler, so with a trap policy such a program compiles.",
["programs","configurations"],"all pairs from a set of range types, full-width types and literals times all operators and conversions, for native and automatic policies; and concrete programs compiled with the trap policies",
"the property is about which programs compile; unit tests list a few and compile-fail coverage is thin",
["safe_base_operations.hpp","exception_policies.hpp"],
[("exception_possible()","safe_base_operations.hpp"),("trap_exception, dispatch_case","exception_policies.hpp")]),
P("C14","Constant evaluation agrees with run-time evaluation",
"Every checked:: operation, safe_compare function, checked_result operator, interval operator, conversion and safe operator that does not fail can be evaluated in a constant expression, and then has the same value, error code and result type as when evaluated at run time. A safe operation or conversion whose error would be thrown is not a constant expression, so that the compiler rejects it in an initializer of a constant.",
["inputs","programs"],"all operations over boundary alphabets of values, evaluated by the compiler and again at run time",
"constexpr tests evaluate a handful of constants and do not compare",
["checked_integer.hpp","checked_result_operations.hpp","interval.hpp","safe_compare.hpp","safe_base_operations.hpp","utility.hpp"],
[("constexpr operations","checked_integer.hpp")]),
P("C15","Safe literals are exact constants that adopt the other operand's policies",
"safe_signed_literal<N>, safe_unsigned_literal<N> and make_safe_literal(N) denote exactly N: their base type is the smallest of the given signedness that holds N, numeric_limits min and max equal N, and conversion, unary + - ~ (where they compile), output, comparison and use as an operand all see the value N. An expression with a literal has the policies of its other operand and is exact or reports like any other operand of that value.",
["programs"],"literals at every power-of-two boundary and their neighbours in both signs, with every operator and several other operand types and policies",
"each literal is its own type, so each is a separate program; tests use a few",
["safe_integer_literal.hpp","utility.hpp"],
[("safe_literal_impl","safe_integer_literal.hpp"),("signed_stored_type/unsigned_stored_type","utility.hpp")]),
P("C16","The cpp policy reproduces the promotions of the target machine",
"With cpp<CharBits,ShortBits,IntBits,LongBits,LongLongBits> the base type of the result of unary minus and of a binary arithmetic, bitwise or shift operation has the width and signedness that the C++ integral promotions and usual arithmetic conversions give on a machine with those sizes, and the value is exact in that type or an error is reported, never spuriously when operands and result fit it.",
["configurations","inputs"],"several machine models (16-bit int, 32-bit int, all sizes equal, 8-bit int), all pairs of operand types, all operators, operand values exhaustively for 8-bit types",
"the tests use the one configuration that coincides with the host",
["cpp.hpp"],
[("cpp::rank, integral_promotion, usual_arithmetic_conversions","cpp.hpp")]),
P("C17","Error codes, names, messages and conditions are one consistent vocabulary",
"Each safe_numerics_error has a distinct non-empty name and message, survives make_error_code unchanged in one category, compares equal to exactly one safe_numerics_actions condition, and that condition is the category whose handler dispatch invokes for it. Codes of other categories equal none of the conditions.",
["inputs"],"all error codes times all conditions, and foreign categories",
"never enumerated by the tests, and two separate tables (dispatch and condition) must agree",
["exception.hpp","exception_policies.hpp"],
[("error categories, literal_string","exception.hpp"),("make_safe_numerics_action","exception_policies.hpp")]),
P("C18","Range types, numeric_limits and bit utilities describe exactly what is stored",
"safe_signed_range<Min,Max> and safe_unsigned_range<Min,Max> use the smallest base type that holds the range, accept exactly the values Min..Max, and std::numeric_limits reports Min and Max (and otherwise the base type's properties). utility::ilog2, significant_bits, round_out, bits_type and minmax return the exact floor logarithm, bit count, all-ones hull, width, and extremes for every value.",
["inputs","programs"],"ranges with both limits over all power-of-two boundaries and neighbours; all values of 8 and 16-bit types and boundary values of wider ones for the utilities",
"each range is its own type; the bit utilities decide result ranges everywhere and have no exhaustive test",
["safe_integer_range.hpp","utility.hpp","safe_base.hpp"],
[("signed_stored_type/unsigned_stored_type, ilog2, significant_bits, round_out, minmax","utility.hpp"),("numeric_limits<safe_base>","safe_base.hpp")]),
P("C19","The library executes no undefined behaviour on any input",
"With throwing policies, no call into the library - checked operations, checked_result and interval arithmetic, conversions, safe operators, comparison, extraction - executes a signed overflow, invalid shift, division by zero or other undefined operation on behalf of its caller, whatever the operand values: it detects the case first.",
["inputs"],"the union of the operations and operand alphabets of the other properties, run with every undefined arithmetic operation instrumented",
"a wrong guard that still yields the expected value on this machine passes any test that compares values",
["checked_integer.hpp","safe_base_operations.hpp","checked_result_operations.hpp","utility.hpp","interval.hpp"],
[("guards in checked_operation","checked_integer.hpp"),("no-check return_value(false_type)","safe_base_operations.hpp")]),
P("C20","Programs over safe integers compute the correct values or report",
"Replacing int types by safe<T> (native policy) in a multi-statement program leaves every value it computes unchanged as long as the built-in program has only mathematically correct intermediate values in the C++ types, and makes it throw at the first expression that would not be correct; with the automatic policy the values are the mathematically correct ones or a report. Nothing that an expression's operand order, literal operands, mixed safe and built-in operands, compound nesting or generic code (standard algorithms, containers, valarray, boost::rational) instantiated with safe types adds changes this.",
["programs","inputs"],"all expression trees with two operators over a set of leaf types, statements built from them, and a set of whole functions, also templates of the standard library and Boost; all values of the leaves and variables over boundary alphabets",
"tests apply one operator to two operands",
["safe_base_operations.hpp","automatic.hpp","native.hpp"],
[("operator overloads on results of other operators","safe_base_operations.hpp")]),
P("C21","Any promotion policy: exact in the type the policy names, or an error",
"With any promotion policy that names a built-in integer type for each operator and pair of operand types (user-defined ones included), a op b has exactly the named base type and carries both policies. Its value is the mathematical result (bitwise: the C++ result of the operands converted to that type) or an error is reported: always when the result does not fit the type, the divisor is zero or the shift is invalid, never when operands and result fit it. Comparisons are mathematically correct, or report when the named type cannot hold an operand.",
["configurations","inputs"],"policies that assign each of the 8 integer types to each of the 11 entries (also types narrower than the operands), all pairs of operand types and operand values",
"the tests use only the three policies of the library, whose result types nearly always hold the operands",
["safe_base_operations.hpp","checked_integer.hpp","concept/promotion_policy.hpp"],
[("addition_result ... bitwise_xor_result, less_than_result","safe_base_operations.hpp"),("PromotionPolicy concept","concept/promotion_policy.hpp")]),
P("C22","Type system: policies propagate, meaningless programs are rejected",
"Operators between safe types of the same policies compile, and their results carry these policies; operators between safe types whose promotion or exception policies differ do not compile, while explicit construction from one to the other does. A conversion between types whose ranges have a common value compiles, one between disjoint ranges does not (except from negative ranges to unsigned types, which is reported at run time), and nothing but numbers converts to or from a safe type or is an operand of its operators. With exceptions disabled programs with handlers of their own compile, and only those which need the throwing handler are rejected.",
["programs","configurations"],"pairs of 4 promotion and 3 exception policies times pairs of type kinds times all operators; conversions between all pairs of a set of ranges, built-in types and literals; programs compiled with -fno-exceptions",
"the property is about which programs compile; unit tests cannot contain programs that must not, beyond a dozen compile-fail files",
["safe_base_operations.hpp","safe_base.hpp","exception_policies.hpp"],
[("common_promotion_policy, common_exception_policy, legal_overload","safe_base_operations.hpp"),("throw_exception, dispatch_case","exception_policies.hpp")]),
P("C23","Same meaning in every translation unit, header order and build mode",
"Every header can be included first, alone or in any order with the others, in C++14 and later, and what it offers then works and means the same. Operations give the same values, types, errors and printed forms whatever the optimisation level, compiler, language version or NDEBUG setting, also when translation units built in different ways, or a shared library, are linked together. An error code or condition made or thrown in one translation unit, at any time of the program's life, compares equal in every other one to the same code, enumerator and condition, and unequal to the others.",
["programs","configurations"],"all ordered pairs of headers; all pairs of build modes of two translation units, link orders and shared libraries; all pairs of codes, ways of making them and conditions across units; the input spaces of other properties in other build modes",
"unit tests are one translation unit each, built in one mode, with one header order; errors at the seams between units cannot show there",
["exception.hpp","native.hpp","checked_default.hpp","range_value.hpp"],
[("safe_numerics_error_category, make_error_code, make_error_condition","exception.hpp"),("header includes","*.hpp")]),
P("C24","No operand escapes the checks, whatever its type",
"An operand or initialiser of any type that stands for an integer (bool, the character types, unscoped enumerations, classes and proxies that convert to an integer type, classes derived from a safe type) is treated exactly as that integer: construction and assignment give its value or report an error when it is outside the range, and leave the target alone then; arithmetic, shifts, bitwise operators, comparisons and compound assignments on either side have the result type, value or report that the promoted operand has, never an unchecked built-in result.",
["inputs"],"25 kinds of operand types x 18 safe types (native, automatic, ranges) x all operators on both sides; boundary alphabets of both plus partner values of the result limits",
"the tests use only the standard signed and unsigned integer types as operands, one value list",
["safe_base_operations.hpp","safe_base.hpp","safe_integer.hpp"],
[("promoted, is_promotable, legal_overload","safe_base_operations.hpp"),("converting constructor and assignment","safe_base.hpp")]),
]
with open('/verif/properties.jsonl','w') as f:
    for p in L:
        assert len(re.findall(r'\.(?=\s|$)',p['statement']))<=3,(p['id'],)
        assert len(p['title'])<=80,(p['id'],len(p['title']))
        f.write(json.dumps(p)+'\n')
print([(p['id'],len(p['title'])) for p in L])
