#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (run from /verif after editing)."""
import json, os
B = "src/main/java/com/github/sidhant92/boolparser/"
APP, PAR, OPS, CMPD, ARI, FUN, DT, DOM, UT = B+"application/", B+"parser/antlr/", B+"operator/", B+"operator/comparison/", B+"operator/arithmetic/", B+"function/", B+"datatype/", B+"domain/", B+"util/ValueUtils.java"
BE, AE, LIS, BP, CP, OS, FS = APP+"BooleanExpressionEvaluator.java", APP+"ArithmeticExpressionEvaluator.java", PAR+"BooleanFilterListener.java", PAR+"BoolParser.java", PAR+"CachedBoolParser.java", OPS+"OperatorService.java", FUN+"FunctionEvaluatorService.java"
G4 = "src/main/java/resources/BooleanExpression.g4"
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, level_note, technique):
    P.append(dict(p=dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe, hook_needed=None)), note=level_note, tech=technique))
BEV = ["BooleanExpressionEvaluator.evaluate"]; AEV = ["ArithmeticExpressionEvaluator.evaluate"]; PEV = ["BoolExpressionParser.parseExpression"]
TRUST = "Holds on the executions observed (counts in the evidence file). Trusted: the harness's reference semantics (vf.RefEval, vf.RefParser), written from the documentation."

prop("C01", "AND, OR, NOT and parentheses compute the Boolean function that is written",
 "Evaluating a condition built with AND/&&, OR/|| and NOT from conditions which each evaluate to true or false returns exactly the value of that Boolean formula. Parentheses group as written at any depth and on any operand; without parentheses AND and OR group from left to right, and NOT applies to the condition (parenthesised, or a bare boolean field or literal) directly after it. This holds for any number and mixture of conditions: comparisons, ranges, membership, array and null checks, boolean fields and literals.",
 ["inputs", "programs"], "all formulas over all conditions and all data for which the conditions evaluate",
 "Tests sample a few dozen formulas with two or three operands; operands of each kind in each position, deep nesting and mixed parentheses are not reached.",
 [BE, LIS, G4], [("evaluateBooleanNode", BE), ("resolveOperand pops exactly the nodes of the operand", LIS)], BEV,
 TRUST+" Leaf truth values are measured on the library itself, so only the combination is judged here.", "runtime monitor: truth-table oracle over observed leaf results")

prop("C02", "Logical operators skip operands that cannot change the result",
 "AND does not evaluate its right operand when the left one is false, and OR does not when the left one is true: fields of a skipped operand are not read and errors in it (missing field, incompatible types, division by zero) do not surface. An operand that is needed and fails makes the whole evaluation a Failure with that operand's cause, never a value. Operands are evaluated, and so fields read, from left to right.",
 ["inputs", "programs", "fault_sequences"], "all AND/OR/NOT trees with operands that succeed or fail at any position",
 "Tests have a handful of short-circuit cases; which operand fails, how, and at which depth is an open space.",
 [BE], [("evaluateBooleanNode uses && and ||", BE)], BEV + ["Map.get calls of the data map"],
 TRUST+" Field reads are observed through a recording data map.", "runtime monitor: recorded field accesses against short-circuit specification")

prop("C03", "Numbers compare by exact value across all representations",
 "Comparing two numbers with =, !=, >, >=, <, <= gives the mathematically exact answer whichever of Integer, Long, Float, Double, BigDecimal, literal or computed value each side is, on either side. Floats and doubles count as their shortest decimal representation; trailing zeros and the type used never matter. No precision is lost for large longs or long decimals.",
 ["inputs"], "all pairs of numbers in all representations, operators and orders",
 "Tests compare a few small integers and decimals; values around 2^31, 2^53, 2^63, many digits and mixed representations are not reached.",
 [CMPD, DT, OS, UT], [("common type selection by priority", OS), ("compareTo on the common type", DT)], BEV,
 TRUST, "runtime monitor: differential oracle with exact arithmetic")

prop("C04", "Text and booleans compare exactly; text is a number only if it reads as one",
 "Two strings (neither being a date) are equal only if they are identical character by character, case included, and are ordered by Unicode code units. Booleans (fields, literals and the results of conditions used as operands) are equal only to the same boolean. Ordering a string against a number uses the number the string spells, and fails if it spells none; such a comparison never falls back to another order.",
 ["inputs"], "all pairs of strings and booleans, strings against numbers, literals or fields, all operators",
 "Tests use a few lower-case words; case, prefixes, Unicode, quotes, empty and control characters are not reached.",
 [CMPD, DT+"StringDataType.java", DT+"BooleanDataType.java", OS], [("StringDataType.compareTo/equalTo", DT+"StringDataType.java")], BEV,
 TRUST, "runtime monitor: differential oracle")

prop("C05", "Versions compare component by component as numbers",
 "Versions compare numerically component by component from the left, missing components counting as zero, whatever the number of digits per component. This holds for literals with at least three components, for version objects in the data under all six operators, and for version strings in the data under the ordering operators, on either side.",
 ["inputs"], "all pairs of dotted numeric versions, sources, operators and orders",
 "Tests compare a few versions with single-digit components.",
 [DT+"VersionDataType.java", PAR+"BooleanExpressionLexer.java", OS, LIS], [("ComparableVersion conversion", UT), ("APP_VERSION token", G4)], BEV,
 TRUST, "runtime monitor: differential oracle")

prop("C06", "Dates and date-times compare chronologically and must exist",
 "Two dates, or two date-times, given as literals, as ISO text (YYYY-MM-DD, YYYY-MM-DD HH:MM:SS) in the data, or as LocalDate/LocalDateTime objects, compare chronologically under all six operators. A date that does not exist in the calendar is never treated as another date: a literal is rejected and a string stays plain text. A date never takes part in an ordering with a number.",
 ["inputs"], "all pairs of dates or date-times from year 0 to 9999, sources, operators and orders",
 "Tests compare a few ordinary days; month ends, leap days, year ends, single seconds and mixed sources are not reached.",
 [DT+"DateDataType.java", DT+"DateTimeDataType.java", UT], [("strict ISO parsing", UT)], BEV,
 TRUST, "runtime monitor: differential oracle with its own calendar")

prop("C07", "A range condition is an inclusive interval test",
 "field lo TO hi is true exactly when lo <= value <= hi by exact numeric comparison, both bounds included, for every numeric representation of the value and of the bounds, and is the same as field >= lo AND field <= hi. A range with lo > hi holds for no number. A value that cannot be ordered against numbers, or a missing field, is a Failure.",
 ["inputs"], "all values and bounds",
 "Tests use a few ranges with integers well inside or outside.",
 [BE, LIS], [("evaluateNumericRangeToken", BE), ("mapToExpressionContext", LIS)], BEV,
 TRUST+" Also judged against the equivalent conjunction on the library itself.", "runtime monitor: differential and metamorphic oracle")

prop("C08", "IN is equality with some item, NOT IN its negation",
 "field IN (items) is true exactly when the field's value equals at least one item under the rules of =; field NOT IN (items) is its negation. The order of the items, duplicates and the number of items do not matter. Items may be literals, computed values, conditions and list-valued fields, whose elements count as items; items of different kinds are each compared on their own.",
 ["inputs"], "all values and item lists",
 "Tests have item lists of up to three homogeneous literals.",
 [BE, CMPD+"InOperator.java", LIS], [("evaluateInToken", BE), ("InOperator", CMPD+"InOperator.java")], BEV,
 TRUST+" Also judged against an OR of equalities and shuffled lists on the library itself.", "runtime monitor: differential and metamorphic oracle")

prop("C09", "CONTAINS_ANY and CONTAINS_ALL are set tests on the field's elements",
 "field CONTAINS_ANY (items) is true exactly when some item equals some element of the list, set, other collection or object array in the field, and CONTAINS_ALL exactly when every item does; numbers are equal by value whatever their type, text equals what is written the same, and elements of an unrelated kind equal no item and disturb nothing. Order, repetition, the collection class and null elements do not matter; an empty collection contains nothing.",
 ["inputs"], "all collections and all homogeneous item lists",
 "Tests use java.util.List of a few integers or strings.",
 [BE, CMPD+"ContainsAllOperator.java", CMPD+"ContainsAnyOperator.java", B+"constant/ContainerDataType.java"], [("evaluateArrayToken", BE), ("ContainsAll/ContainsAny", CMPD)], BEV,
 TRUST+" Also judged against one condition per item on the library itself.", "runtime monitor: differential and metamorphic oracle")

prop("C10", "A null check is true exactly when the field has no value",
 "x = null is true, and x != null false, exactly when the data has no non-null value at the path x: the key is absent, its value is null, or an intermediate step is absent, null or not a map. Any present value, including 0, false, empty text, the text 'null' and empty lists, is not null. Null checks on fields never fail, in either operand order and any capitalisation of null.",
 ["inputs"], "all paths and data maps",
 "Tests check one present and one absent top-level field.",
 [BE, DOM+"logical/ComparisonNode.java", DOM+"FieldNode.java", UT], [("isNullCheck", DOM+"logical/ComparisonNode.java"), ("getValueFromMap", UT)], BEV,
 TRUST, "runtime monitor: differential oracle")

prop("C11", "A field reference yields exactly the value stored at its path",
 "A field name yields the value stored under exactly that (case-sensitive) name, and a dotted path the value reached by following it through nested maps, wherever an operand may be a field and whatever kind of Map holds it. With a default field, an omitted operand of a comparison means the default field. A comparison, membership, range, array or arithmetic operand that refers to a path without a value makes the evaluation a data-not-found Failure; it never yields a value.",
 ["inputs", "configurations"], "all names, paths, data maps and default fields",
 "Tests use a few lower-case names and one level of nesting.",
 [UT, BE, AE, LIS], [("getValueFromMap", UT), ("DataNotFoundException", BE)], BEV + AEV,
 TRUST, "runtime monitor: differential oracle")

prop("C12", "Arithmetic follows the documented precedence and exact decimal rules",
 "An arithmetic expression over numbers evaluates to the exact value of its operator tree, where precedence is ^ then / then * then % then + then - (each left-associative) unless parentheses group otherwise and unary minus binds tighter; division yields the quotient cut (towards zero) to three decimals, and a whole quotient an integer. The representation of operands (Integer, Long, Float, Double, BigDecimal, literal) never changes the value. + concatenates when an operand is text, a boolean or a version.",
 ["inputs", "programs"], "all operator trees over all numeric operands",
 "Tests have one or two operators on small values.",
 [AE, ARI, LIS, G4], [("operators", ARI), ("resolveOperand", LIS), ("alternatives of expression", G4)], AEV,
 TRUST+" Powers outside 64 bits or with fractional or negative exponents are only checked to be close to the double power.", "runtime monitor: differential oracle with exact arithmetic")

prop("C13", "Integer arithmetic never wraps around",
 "Addition, subtraction, multiplication, negation, powers, SUM, AVG, MIN, MAX and INT of integers return the exact mathematical result (as Integer, Long or BigDecimal) or a Failure, never a value reduced modulo 2^32 or 2^64 nor clamped. Results beyond the int range are exact up to the long range. Conditions are never decided on a wrapped value.",
 ["inputs"], "all integer operands, in particular around 2^31, 2^53 and 2^63",
 "Tests use small integers.",
 [ARI, FUN+"arithmetic/", UT], [("exact operations", ARI), ("castLong/castDecimal", UT)], AEV + BEV,
 TRUST, "runtime monitor: differential oracle with big integers")

prop("C14", "Aggregate functions compute their mathematical definition",
 "MIN, MAX, SUM, AVG, MEAN, MEDIAN and MODE return, for any non-empty sequence of numbers of any representation, the least, greatest, total, mean (cut to three decimals), middle (for an even count the mean of the two middle values) and a most frequent value. It makes no difference whether the numbers come as arguments, as list fields, mixed or nested, nor in which order (except which of several most frequent values MODE picks). An empty sequence is a Failure.",
 ["inputs"], "all non-empty sequences of numbers",
 "Tests use up to five small numbers, mostly sorted and of one type.",
 [FUN+"arithmetic/", FS, AE, UT], [("functions", FUN+"arithmetic/"), ("mapToEvaluatedNodes flattens lists", UT)], AEV,
 TRUST+" The mean of the two middle values is accepted exactly or cut to two or more decimals.", "runtime monitor: differential and metamorphic oracle")

prop("C15", "LEN, INT and DAYS_ELAPSED measure exactly",
 "LEN of text is its number of characters (UTF-16 units) and LEN of a collection its number of elements, zero included. INT of a number is its integer part, cut towards zero, at any magnitude. DAYS_ELAPSED of a date is the number of calendar days from it to today in the default time zone, negative for future dates, for literals, ISO text and LocalDate alike.",
 ["inputs"], "all texts, collections, numbers and dates",
 "Tests use one or two short values each.",
 [FUN+"arithmetic/LenFunction.java", FUN+"arithmetic/IntFunction.java", FUN+"arithmetic/DaysElapsedFunction.java", AE], [("functions", FUN+"arithmetic/")], AEV + BEV,
 TRUST+" A change of the date during a call is tolerated.", "runtime monitor: differential oracle")

prop("C16", "The parsed tree is the expression's structure",
 "For every well-formed expression the parser returns a tree of the documented node types which mirrors the expression: every operator, field, literal (with its type and value) and item appears once, in its place and order, and nothing else does. Parentheses and precedence decide the shape alone; nesting depth and the kind of neighbouring operands have no influence.",
 ["inputs", "programs"], "all well-formed expressions",
 "Tests inspect a few dozen trees, mostly with literal operands and little nesting.",
 [LIS, BP, G4, DOM], [("listener stack discipline", LIS)], PEV,
 TRUST, "runtime monitor: structural oracle on returned trees")

prop("C17", "The caching parser is indistinguishable from the plain one",
 "For every sequence of calls, a CachedBoolParser of any capacity answers each (expression, default field) exactly as a fresh BoolParser would: the same tree or a Failure. No answer depends on what was parsed, evicted or failed before, and expressions that differ in any character or in the default field never share an answer.",
 ["histories", "inputs", "configurations"], "all histories of parse and evaluate calls, capacities and default fields",
 "Tests parse a couple of expressions once each with the cached parser.",
 [CP, BP], [("cache key of expression and default field", CP)], PEV + BEV + AEV,
 TRUST+" The oracle is the library's plain parser.", "runtime monitor: history checked against the plain parser")

prop("C18", "Caches are bounded and effective; nothing else is retained",
 "After any number of distinct expressions, a CachedBoolParser retains at most its capacity of parsed expressions (once eviction has settled). While no more distinct (expression, default field) pairs than its capacity have been used, a repeated expression is not parsed again: the same tree instance is returned. A plain parser and the evaluators retain no expression, tree or data after a call, and the library as a whole does not grow with the number of different expressions, names and values it has seen.",
 ["histories", "configurations"], "all histories of calls and capacities",
 "Tests never look at retention; a leak or a cache that never hits passes them.",
 [CP, BP, BE, AE], [("Caffeine maximumSize", CP)], PEV + ["reachability of returned trees, expression texts and data after garbage collection", "class histogram of the heap"],
 "Holds on the histories observed. Trusted: the JVM clears weak references to unreachable objects on System.gc(); eviction is given fifteen seconds to settle and two entries of slack.", "runtime monitor: reachability (weak references), identity of returned trees, heap histograms")

prop("C19", "Parsers and evaluators are safe to use from many threads",
 "Parsers, caching parsers and evaluators may be constructed and used concurrently, shared or not, including the very first use of the library: every call returns exactly what it returns when run alone. No call throws, blocks forever or sees another call's expression, data or intermediate results.",
 ["schedules", "histories"], "all interleavings of constructions, parses and evaluations",
 "All tests are single-threaded.",
 [BP, CP, BE, AE, OPS+"OperatorFactory.java", FUN+"FunctionFactory.java", DT+"DataTypeFactory.java", LIS], [("state per call (listener, lexer, parser)", BP), ("registries are only overwritten with equivalent entries", OPS+"OperatorFactory.java")], PEV + BEV + AEV,
 "Holds on the interleavings observed (rounds with distinct orders of perturbed accesses are counted). Trusted: single-threaded results of the same library as oracle; memory-model effects which this JVM and CPU do not exhibit are out of reach.", "runtime monitor: schedule noise and delays at observed places of contention by bytecode instrumentation, sequential oracle")

prop("C20", "Evaluation is a pure function of expression and data",
 "Evaluating leaves the data map, everything in it and previously returned trees unmodified. Repeating a call gives the same value of the same class, or a failure of the same kind, whatever was evaluated in between (including failing or too deep expressions), whichever evaluator, map or list class is used for the same content, and under every default locale and time zone (DAYS_ELAPSED aside).",
 ["histories", "inputs", "configurations"], "all histories of calls, container classes, locales and time zones",
 "Tests evaluate each expression once under one locale.",
 [BE, AE, FUN+"arithmetic/", ARI, UT, B+"constant/"], [("no evaluation state in fields", BE), ("functions work on copies", FUN+"arithmetic/")], BEV + AEV + PEV,
 "Holds on the histories observed. Oracle: the first result and deep snapshots taken before.", "runtime monitor: recording containers, snapshots, repeated-call comparison")

prop("C21", "Every call returns a Try; nothing escapes and nothing hangs",
 "For every expression (null, malformed, huge or deeply nested included), default field and data map (null, throwing RuntimeExceptions, with values of any class, not-a-number values, self-containing collections), parsing and evaluation terminate and return a Try holding a non-null value or a cause; they never throw and never return null. A boolean evaluation's value is a Boolean. After any such call the parser and the evaluators keep working as before.",
 ["inputs", "fault_sequences"], "all expressions, default fields and data maps",
 "Tests try a few malformed expressions and missing fields.",
 [BP, BE, AE, UT, FUN, OPS], [("Try.of / Try.map and StackOverflowError handling", BP)], PEV + BEV + AEV,
 "Holds on the calls observed. Running time of pathological nests of hundreds of minus signs (cubic in ANTLR) and of arithmetic on BigDecimals with astronomic exponents is not bounded by this check.", "runtime monitor: totality of observed outcomes, watchdog")

prop("C22", "Text that is not an expression is rejected, never guessed",
 "Without a default field, a text that is not a complete expression of the language (stray or missing tokens, unknown characters, unterminated quotes, trailing text, missing operands or items, numbers out of the long range, dates that do not exist) makes parsing and both evaluations fail; no part of the text is ignored or made up. Missing closing parentheses alone may be forgiven. Every well-formed text is accepted.",
 ["inputs"], "all texts",
 "Tests reject about ten malformed texts.",
 [LIS, BP, PAR+"BooleanExpressionLexer.java", PAR+"BooleanExpressionParser.java", G4], [("error listener, visitErrorNode, enterEveryRule", LIS), ("LEXER_ERROR_LISTENER", BP)], PEV + BEV + AEV,
 TRUST, "runtime monitor: independent recogniser as oracle")

prop("C23", "Spelling does not matter; quoted text is verbatim",
 "White space between tokens (and its absence where tokens are separated anyway), upper or lower case of keywords, function names and literals true/false, AND versus &&, OR versus ||, the kind of quote and redundant parentheses have no influence on the parsed tree or any result. The content of a quoted string is taken verbatim, whatever characters other than its own quote it contains, and is never read as syntax.",
 ["inputs"], "all expressions and all their spellings; all quoted strings",
 "Tests use one spelling per expression and plain words as strings.",
 [PAR+"BooleanExpressionLexer.java", LIS, G4, UT], [("lexer rules", G4), ("quote stripping", UT)], PEV + BEV + AEV,
 TRUST, "runtime monitor: metamorphic oracle over spellings")

prop("C24", "Operations on values they are not defined for fail",
 "Ordering booleans, ordering text that is no number or dates against numbers, arithmetic (other than concatenation with +) and aggregates on non-numbers, modulus of fractions, division or modulus by zero, CONTAINS on a scalar or with items of mixed types, DAYS_ELAPSED of a non-date, INT or DAYS_ELAPSED of several values and using a non-boolean as a condition are Failures. They never produce a value, alone or inside a larger expression which needs them.",
 ["inputs", "programs"], "all ill-typed operations and contexts",
 "Tests check about a dozen such operations on their own.",
 [OS, FS, BE, AE, CMPD, ARI], [("allowed data types of operators and functions", OS)], BEV + AEV,
 TRUST, "runtime monitor: differential oracle (must-fail)")

prop("C25", "Computed operands in conditions have their arithmetic value",
 "An arithmetic expression or function call used as an operand of a condition (either side of a comparison, items of IN and CONTAINS, function arguments) behaves exactly like a field holding the value which the arithmetic evaluator returns for it. If that evaluation fails, the condition that needs it fails.",
 ["inputs", "programs"], "all arithmetic expressions in all operand positions",
 "Tests embed a few simple sums on the right-hand side.",
 [BE, AE, LIS], [("getValue delegates to the arithmetic evaluator", BE), ("resolveArrayElements", BE)], BEV + AEV,
 TRUST+" The value is measured with the library's own arithmetic evaluator.", "runtime monitor: metamorphic oracle (substitution)")

prop("C26", "Evaluators compute exactly the tree which their parser returns",
 "An evaluator hands each expression and default field unchanged to the BoolExpressionParser it was constructed with, whichever implementation that is, evaluates exactly the tree it returns, and returns its failure with the same cause. A tree made by hand from the public node classes (constructors, builders, setters), put together from parts of other trees, with shared sub-trees, or parsed earlier and evaluated on other data, has the value of the expression it stands for. A tree too tall for the stack is a Failure, never another value. Evaluation never modifies a tree.",
 ["inputs", "programs", "histories"], "all parser implementations, all trees of the documented node types, all data",
 "Tests always evaluate freshly parsed texts with the library's own parser.",
 [BE, AE, B+"parser/BoolExpressionParser.java", DOM], [("evaluate maps over parseExpression", BE), ("node classes", DOM)], BEV + AEV + ["BoolExpressionParser.parseExpression calls of the evaluator"],
 TRUST+" The foreign parser is a recording stub of the harness.", "runtime monitor: recording stub parser, hand-made trees against the reference evaluator")

prop("C27", "The six comparison operators tell one consistent story",
 "For any two values x != y is the negation of x = y, x <= y of x > y and x >= y of x < y (one fails exactly when the other does), x > y and x < y are never both true, and swapping the operands mirrors the operator. Within numbers, texts, versions, dates and date-times exactly one of <, =, > holds, every value equals itself, <= is transitive and equal values have the same order to every third one. field IN (y) agrees with field = y, a range with its two comparisons, NOT with the negated operator, and MIN and MAX with the order of numbers.",
 ["inputs"], "all pairs and triples of values of all kinds, as literals or fields",
 "Tests look at one operator on one pair at a time.",
 [CMPD, DT, OS, BE], [("operators delegate to the data types", OS), ("compareTo/equalTo of the data types", DT)], BEV,
 "Holds on the executions observed (counts in the evidence file). The laws relate observations of the library with each other.", "runtime monitor: algebraic laws over recorded outcomes")

prop("C28", "It does not matter whether an operand is a literal or a field",
 "Replacing a literal by a field holding its value (a date literal also by its text), a field holding a value that can be written as a literal by that literal, a field by another, nested or default field with the same value, in any operand position of comparisons, ranges, IN, CONTAINS, logical and arithmetic operators and functions, leaves the outcome unchanged: the same value, or again a Failure.",
 ["inputs", "programs"], "all expressions, all subsets of replaced operands, all data",
 "Tests write literals on the right and fields on the left and rarely anything else.",
 [BE, AE, UT, LIS], [("getValue", BE), ("ValueUtils.getDataType of both operands", UT), ("evaluateFieldToken and evaluateUnaryToken", AE)], BEV + AEV,
 "Holds on the executions observed (counts in the evidence file). Each observation is compared with another observation of the library. Bounds of ranges are always literals; the operand names of IN, CONTAINS and ranges are always fields.", "runtime monitor: metamorphic oracle (substitution)")

prop("C29", "The number class of an arithmetic result is predictable",
 "A numeric result of an operator or function is an Integer, a Long or a BigDecimal, never a Float, Double or BigInteger, and a fraction is a BigDecimal. +, -, *, % and negation of integers give an integer class when the value is in the long range, and of Integers an Integer when it is in the int range. A whole quotient, a whole power below 2^53 and every whole function value comes as the smallest of Integer, Long and BigDecimal that holds it (MODE may return the Float or Double element itself).",
 ["inputs", "programs"], "all operators and functions over numbers of all classes",
 "Tests assert the class of a few small results; the class decides whether a caller's cast or equals works.",
 [ARI, FUN, UT], [("castDecimal/castLong", UT), ("operators' evaluate", ARI)], AEV,
 "Holds on the executions observed (counts in the evidence file). Every sub-expression's result is observed on its own.", "runtime monitor: class of every observed sub-result against the documented types")

prop("C30", "Cost grows in step with the size of the expression and its data",
 "Parsing and evaluating take work in proportion to the length of the expression and the values it refers to: for chains and nests of every operator and function, item lists, long literals, lists and texts in the data, the memory allocated grows clearly less than quadratically with the size, the number of unrelated entries in the data does not matter, and each occurrence of a field is read from the data a bounded number of times. Long runs of any characters, in the expression or in the data, take no processor time out of proportion. (Nested unary minus and very deep paths aside.)",
 ["inputs", "programs"], "all families of growing expressions and data",
 "Tests use small expressions, on which repeated or exponential work is invisible.",
 [BE, AE, LIS, UT, OS], [("every operand is evaluated once", BE), ("map of parse-tree nodes to operands", LIS)], BEV + AEV + PEV + ["bytes allocated by the calling thread", "Map.get calls of the data map"],
 "Holds on the families and sizes observed (6 to 480, runs of characters to 6000). Bytes allocated by the calling thread stand for the work done; stack traces of internal exceptions are switched off.", "runtime monitor: allocation, read and processor time counters over growing inputs")

prop("C31", "Every failure names its cause",
 "A malformed expression fails with an InvalidExpressionException, in the plain and the caching parser and in both evaluators, whatever the data. A DataNotFoundException occurs only when the expression is well-formed, and names a field of it which the data lacks; a well-typed expression of which just one entry is missing fails with it. Every other failed evaluation reports one of the library's own exceptions or an ArithmeticException, never a NullPointerException, ClassCastException, NumberFormatException or the like, and the library's exceptions have a message. (Not judged: expressions nested too deeply for the stack; data whose own methods throw.)",
 ["inputs", "programs"], "all texts, well-formed or not, and all data of ordinary Java values",
 "Tests assert the class of some twenty failures; callers tell a bad expression from missing data by it for every input.",
 [BP, LIS, BE, AE, OS, UT], [("syntax errors become InvalidExpressionException", BP), ("missing items, bounds and values", LIS), ("DataNotFoundException", BE), ("validation before an operator runs", OS)], BEV + AEV + PEV,
 "Holds on the executions observed (counts by exception class in the evidence file). Texts that only lack closing parentheses are not judged.", "runtime monitor: classification of every reported failure by the reference parser and the data")

prop("C32", "Only the entries an expression mentions can matter",
 "The outcome of an evaluation (value, its class, or the class of the failure) depends only on the entries of the data on the paths which the expression (with its default field) mentions: other entries, at the top level or inside nested maps, can be absent, null, of any class, similar in name, or throw when used, without any effect.",
 ["inputs", "programs"], "all expressions, all data, all changes to the entries not mentioned",
 "Tests use data with just the entries they need; a fallback to another key or a scan of the data is invisible to them.",
 [UT, BE, AE], [("getValueFromMap", UT), ("lookup by the mentioned path", BE)], BEV + AEV,
 "Holds on the executions observed. Two observations of the library are compared; a map that is itself an operand counts as mentioned with all its content.", "runtime monitor: metamorphic oracle (noninterference), with entries which throw when touched")

prop("C33", "Field names carry no meaning beyond their place in the data",
 "Renaming the segments of field paths one to one to other legal names, in the expression, the default field and the data alike, changes nothing: the value stays the same, a failure keeps its class, and the parsed tree is the same but for the names. This includes names which resemble keywords, functions, numbers, versions or literals.",
 ["inputs", "programs"], "all expressions, all injective renamings to legal names",
 "Tests use a handful of names; a name that is taken for a keyword, a number or a literal shows only when somebody uses it.",
 [G4, LIS, UT, BE], [("APP_WORD and its rivals", G4), ("getField, getDataType", LIS), ("getValueFromMap", UT)], BEV + AEV + PEV,
 "Holds on the executions observed. Only renamings which the reference parser reads as the renamed tree are used; the word null keeps its special meaning and its name.", "runtime monitor: metamorphic oracle (renaming)")

prop("C34", "Using the library has no effect besides the result",
 "Constructing parsers and evaluators, parsing and evaluating, successfully or not, write nothing to standard output and log nothing; standard error gets at most the grammar's one-line messages (line n:m ...) about a malformed expression, and nothing for a well-formed one. No call touches a file, the network, a process, a system property, the default locale or time zone, starts a thread of its own (a cache may use the common pool), or alters the calling thread: its interrupt status (which does not influence the outcome either), name, priority, context class loader and handlers are as before.",
 ["inputs", "configurations"], "all expressions, data, calls and states of the calling thread",
 "Tests look at results only; what else a call does to its process goes unnoticed.",
 [BE, AE, BP, CP], [("evaluate", BE), ("evaluate", AE), ("parse, error listeners", BP), ("cache", CP)], BEV + AEV + PEV,
 "Holds on the executions observed. The process is watched through spied standard streams, a recording security manager, a log handler and snapshots of process and thread state; reading class files and resources of the JDK does not count.", "runtime monitor: recording security manager, spied streams, snapshots of process and thread state around every call")

prop("C35", "Any entry point may be the first one used",
 "The outcome of a call does not depend on what part of the library was used first: constructing a plain or caching parser or either evaluator, parsing, evaluating with the library's or a foreign parser, a call that fails; on whichever thread, with or without interrupt status or context class loader; under whichever default locale and time zone the first use took place.",
 ["inputs", "histories", "configurations"], "all first uses of the library followed by all calls",
 "A test run loads the library once; what its static registries and constants depend on at first use is fixed by the order of the tests.",
 [OPS+"OperatorFactory.java", OS, DT+"DataTypeFactory.java", FUN+"FunctionFactory.java", FS, BP], [("initialize", OPS+"OperatorFactory.java"), ("constructor initialises the registries", OS), ("initialize", DT+"DataTypeFactory.java"), ("constructor initialises the functions", FS)], BEV + AEV + PEV,
 "Holds on the executions observed: some thousand fresh copies of the library per run.", "runtime monitor: fresh copies of the library against one long in use")

prop("C36", "The value of an expression is made of the values of its parts",
 "Replacing any part of an expression that can be evaluated on its own (a calculation or function call as an operand, argument or item; a condition as an operand of AND, OR, NOT or a comparison, or as an item) by a new field which holds the value that part evaluates to with the same data leaves the outcome as it was: the same value of the same class, or a failure of the same class. How a value came about (computed, read from the data, concatenated, the result of a condition) never matters to what surrounds it.",
 ["inputs", "programs"], "all expressions, all data, all parts which have a value",
 "Tests check a few nested expressions against fixed results; that every context treats a computed value exactly as a field with that value is a relation between evaluations.",
 [AE, BE, OS, FS, UT], [("evaluateArithmeticToken, evaluateArithmeticFunctionToken", AE), ("getValue, resolveArrayElements", BE), ("getDataType", UT)], BEV + AEV,
 "Holds on the executions observed. Parts are measured on the library itself; bounds of ranges and parts which fail on their own are left as they are.", "runtime monitor: metamorphic oracle (substitution of measured parts)")

# (further properties are added above this line)
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for x in sorted(P, key=lambda x: x["p"]["id"]):
        assert len(x["p"]["title"]) <= 80, x["p"]["title"]
        f.write(json.dumps(x["p"], ensure_ascii=True) + "\n")
m = dict(version=1, setup_cmd="bash check.sh --setup",
  checks=[dict(property=x["p"]["id"], quick_cmd="bash check.sh " + x["p"]["id"], thorough_cmd="bash check.sh " + x["p"]["id"], evidence_file="evidence/%s.json" % x["p"]["id"],
               technique=x["tech"], level="exploration", level_note=x["note"]) for x in sorted(P, key=lambda x: x["p"]["id"])],
  not_applicable=[],
  notes="check.sh recompiles /repo/src/main/java together with the harness on every run; VERIF_TIER=thorough runs the same monitors for minutes instead of seconds; no hooks in /repo (instrumentation is woven in at class loading). Findings: known_findings.txt; design: DESIGN.md.")
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
