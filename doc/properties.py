#!/usr/bin/env python3
# writes properties.jsonl and MANIFEST.json
import json, os
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
R = 'src/main/java/com/github/sidhant92/boolparser/'
F = {
 'be': 'application/BooleanExpressionEvaluator.java', 'ae': 'application/ArithmeticExpressionEvaluator.java',
 'bp': 'parser/antlr/BoolParser.java', 'cp': 'parser/antlr/CachedBoolParser.java', 'li': 'parser/antlr/BooleanFilterListener.java',
 'lx': 'parser/antlr/BooleanExpressionLexer.java', 'gp': 'parser/antlr/BooleanExpressionParser.java',
 'vu': 'util/ValueUtils.java', 'os': 'operator/OperatorService.java', 'of': 'operator/OperatorFactory.java',
 'no': 'operator/comparison/NumericOperator.java', 'eq': 'operator/comparison/EqualsOperator.java', 'ne': 'operator/comparison/NotEqualsOperator.java',
 'gt': 'operator/comparison/GreaterThanOperator.java', 'ge': 'operator/comparison/GreaterThanEqualOperator.java',
 'lt': 'operator/comparison/LessThanOperator.java', 'le': 'operator/comparison/LessThanEqualOperator.java',
 'in': 'operator/comparison/InOperator.java', 'ca': 'operator/comparison/ContainsAnyOperator.java', 'cl': 'operator/comparison/ContainsAllOperator.java',
 'cd': 'constant/ContainerDataType.java', 'dt': 'constant/DataType.java', 'op': 'constant/Operator.java', 'ft': 'constant/FunctionType.java',
 'di': 'datatype/IntegerDataType.java', 'dl': 'datatype/LongDataType.java', 'dd': 'datatype/DecimalDataType.java', 'dv': 'datatype/VersionDataType.java',
 'ds': 'datatype/StringDataType.java', 'db': 'datatype/BooleanDataType.java', 'da': 'datatype/DateDataType.java', 'dm': 'datatype/DateTimeDataType.java',
 'add': 'operator/arithmetic/AddOperator.java', 'sub': 'operator/arithmetic/SubtractOperator.java', 'mul': 'operator/arithmetic/MultiplyOperator.java',
 'div': 'operator/arithmetic/DivideOperator.java', 'mod': 'operator/arithmetic/ModulusOperator.java', 'exp': 'operator/arithmetic/ExponentOperator.java', 'un': 'operator/arithmetic/UnaryOperator.java',
 'fs': 'function/FunctionEvaluatorService.java', 'min': 'function/arithmetic/MinFunction.java', 'max': 'function/arithmetic/MaxFunction.java',
 'sum': 'function/arithmetic/SumFunction.java', 'avg': 'function/arithmetic/AvgFunction.java', 'mean': 'function/arithmetic/MeanFunction.java',
 'med': 'function/arithmetic/MedianFunction.java', 'mode': 'function/arithmetic/ModeFunction.java', 'len': 'function/arithmetic/LenFunction.java',
 'int': 'function/arithmetic/IntFunction.java', 'de': 'function/arithmetic/DaysElapsedFunction.java', 'cn': 'domain/logical/ComparisonNode.java', 'fn': 'domain/FieldNode.java',
}
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, note=None):
    P.append((dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=[R + F[f] for f in files], mechanism=[dict(name=n, where=R + F[w[0]] + ' ' + w[1]) for n, w in mech],
        observe_at=observe or ['the Try returned by evaluate of the boolean evaluator'], hook_needed=None)), note))
I = ['inputs']; IP = ['inputs', 'programs']
BE = ['the Try returned by evaluate of the boolean evaluator']; AE = ['the Try returned by evaluate of the arithmetic evaluator']; BA = BE + AE

p('C01', 'Numeric comparisons are exact', 'A comparison (= != < <= > >=) of two numbers, each a field of any numeric type, an integer or decimal literal or a computed value, holds exactly when the mathematical values stand in that relation. Values beyond the int range, with different numbers of fraction digits or of different types are no exception. Ordering a number against numeric text compares with the number the text spells.',
  I, 'all values of every pair of numeric types on either side, all six operators',
  'The tests compare a dozen small numbers with literals; truncation to int, loss of precision in a conversion or the wrong choice of the common type shows only for particular values and type pairs.',
  ['be', 'os', 'no', 'gt', 'ge', 'lt', 'le', 'eq', 'ne', 'di', 'dl', 'dd', 'dt'], [('comparison in the type of higher priority', ('no', 'getComparableDataType')), ('conversion of operands', ('dd', 'getValue')), ('dispatch', ('os', 'evaluateLogicalOperator'))])
p('C02', 'Comparison operators, IN and ranges agree with each other', 'For any two values that can be compared, exactly one of <, = and > holds where the values are ordered by one type, != is the negation of =, <= and >= are the negations of > and <, and exchanging the operands mirrors the operator. IN over one value agrees with =, NOT IN with !=, and a range with the conjunction of its two comparisons. Ordering is transitive.',
  I, 'pairs and triples of numbers of every type, dates, date-times, versions and texts',
  'Consistency relates several evaluations over the same values; every test looks at one evaluation of one pair.',
  ['be', 'os', 'no', 'gt', 'ge', 'lt', 'le', 'eq', 'ne', 'in'], [('six comparison operators implemented separately', ('os', 'evaluateLogicalOperator')), ('range as two comparisons', ('be', 'evaluateNumericRangeToken'))])
p('C03', 'Text comparison is exact and case-sensitive', 'Two texts are equal exactly when they have the same characters in the same order, including case, blanks and quotes, whether they come from a field or a quoted literal in either kind of quotes. Texts that are not dates are ordered lexicographically.',
  I, 'all texts up to the bound over an alphabet with cases, blanks, digits and quotes',
  'The tests use a few lower-case words, which neither trimming, case folding nor mistaken unquoting would change.',
  ['li', 'vu', 'ds', 'eq', 'ne'], [('removal of exactly one pair of quotes', ('vu', 'convertValue')), ('text data type', ('ds', 'getValue'))])
p('C04', 'Dates and date-times compare chronologically', 'Two dates, or two date-times, stand in the relation their positions in time have, for all six operators and IN. It does not matter whether a side is a date object, a date-time object, a text in the documented format or a literal.',
  I, 'all dates of the years 1000 to 9999 and date-times to the second, in every pair of representations',
  'The tests compare a few fixed dates; the order by year, month and day, leap days and the mixture of representations are a matter of all pairs.',
  ['vu', 'da', 'dm', 'li', 'os', 'no'], [('recognising dates in text', ('vu', 'getDataType')), ('conversion', ('da', 'getValue'))])
p('C05', 'Versions are ordered by their components', 'Two versions compare component by component as numbers, missing components counting as zero, so that 1.5.10 is later than 1.5.9 and 1.5 equals 1.5.0 in order. It does not matter whether a version is held as text or as a version object, nor how many digits a component has. A version is equal to its own text.',
  I, 'versions of 2 to 5 components with all digits symbolic, on either side',
  'The tests use a handful of versions; comparison as text agrees with comparison as versions for most of them.',
  ['dv', 'no', 'lx', 'li', 'eq'], [('version data type', ('dv', 'getValue')), ('version literals', ('li', 'getDataType'))])
p('C06', 'A range includes both of its bounds', 'x A TO B holds exactly when A <= x and x <= B in the mathematical order, for a number of any type and integer or decimal bounds of any size, also when A > B. Nested fields, numeric text and negation behave as in comparisons.',
  I, 'all numeric values of every type and all bounds within the digit bounds',
  'The tests try few points; what happens at and next to the bounds, for mixed types and beyond int, needs every value.',
  ['be', 'li', 'gt', 'ge', 'le'], [('both bounds compared', ('be', 'evaluateNumericRangeToken')), ('bound literals', ('li', 'mapToExpressionContext'))])
p('C07', 'IN holds exactly when the value equals a member', 'x IN (...) holds exactly when x equals at least one of the listed members, which may be literals, fields, computed values or collections standing for their elements, of any types and in any position. NOT IN is its negation.',
  IP, 'member lists up to the bound with symbolic values, kinds and positions',
  'The tests list two or three literals; position, kind and type of the matching member are free in general.',
  ['be', 'in', 'li', 'vu', 'cd'], [('resolution of the members', ('be', 'resolveArrayElements')), ('any member matches', ('in', 'evaluate')), ('members from the syntax tree', ('li', 'getArrayElements'))])
p('C08', 'CONTAINS_ANY and CONTAINS_ALL mean what they say', 'F CONTAINS_ANY (...) holds exactly when at least one listed value is an element of the collection or array F, F CONTAINS_ALL (...) exactly when every listed value is one. Equality is that of = , so numbers are compared by value. A field that is not a collection is never reported to contain something.',
  IP, 'collections and item lists up to the bound with symbolic elements of every type, in lists, sets and arrays',
  'The tests use two fixed lists; which element matches, duplicates, the empty collection and equal numbers of different types are not sampled.',
  ['be', 'ca', 'cl', 'cd', 'li', 'vu'], [('elements converted to the items type', ('cd', 'LIST.getValue')), ('any / all', ('ca', 'evaluate')), ('evaluation', ('be', 'evaluateArrayToken'))])
p('C09', 'AND, OR and NOT follow their truth tables', 'A combination of predicates by AND, OR, NOT and parentheses, in every documented spelling, has the value of the propositional formula it denotes over the values of its parts, whatever the kinds of predicates and however deep the nesting. Without parentheses NOT binds tightest and AND binds tighter than OR. A left operand that decides the result makes the right one irrelevant.',
  IP, 'all truth assignments of all bracketings up to the bound; all ordered pairs of 14 kinds of predicates',
  'The tests evaluate a few formulas for one assignment each; a confusion of operands in the tree shows only for some shapes, kinds and assignments.',
  ['be', 'li', 'gp'], [('logical operands resolved from the stack of nodes', ('li', 'resolveLogicalOperand')), ('evaluation', ('be', 'evaluateBooleanNode'))])
p('C10', 'Null checks hold exactly for absent values', 'x = null holds exactly when the field x is absent, null or out of reach because a part of its path is absent; x != null is its negation; it does not matter on which side null is written. Every value that is present, including empty text, zero, false, an empty collection and the text null, is not null, and a computed value never is.',
  I, 'values of all kinds, paths broken at any level, both sides',
  'The tests check one present and one absent field at the top level with null on the right.',
  ['be', 'cn', 'fn', 'vu'], [('null check', ('be', 'evaluateComparisonToken')), ('detection', ('cn', 'constructor'))])
p('C11', 'What cannot be evaluated is a failure, never an answer', 'An evaluation that needs an absent value, or an operation that the types of its operands do not support, is reported as a failed result. It never yields a boolean or a number, and no exception leaves the call. The same holds for parsing.',
  IP, 'every kind of predicate and arithmetic expression over values of 12 kinds in each field',
  'Which combination of expression and type ends up in a default answer is a matter of all pairs; the tests sample a few mismatches.',
  ['be', 'ae', 'os', 'no', 'fs', 'cd', 'bp', 'vu'], [('validation of operand types', ('os', 'evaluateLogicalOperator')), ('Try around parsing', ('bp', 'parseExpression')), ('absent values', ('be', 'orElseThrow'))], BA)
p('C12', 'Dotted fields resolve through nested maps only', 'A dotted field denotes the value found by following its parts through nested maps, in every kind of expression and at any depth. Values stored elsewhere, under equal or differently cased names, never take its place. When a part is absent or not a map, the field has no value.',
  I, 'chains up to the bound with symbolic values and decoys on every level, broken at any place',
  'The tests follow one path of two or three parts without anything else to confuse it with.',
  ['vu', 'be', 'ae'], [('recursive lookup', ('vu', 'getValueFromMap'))], BA)
p('C13', 'Integer +, - and * are exact or fail', 'The sum, difference and product of integers of any type is the exact mathematical value, for fields, literals and groups. When the value does not fit in 64 bits the evaluation fails. It never yields another number.',
  I, 'all int and long values of both operands',
  'Overflow happens for none of the values in the tests; it is a matter of all pairs of 64-bit values.',
  ['ae', 'add', 'sub', 'mul', 'vu', 'dl'], [('64-bit arithmetic', ('add', 'evaluate')), ('narrowing of results', ('vu', 'castLong'))], AE)
p('C14', 'Division truncates to 3 digits; modulus is the remainder', 'a / b is the quotient truncated towards zero to three fraction digits, for every combination of numeric types; a % b for integers is the remainder with the sign of the dividend. Division or modulus by zero, and the modulus of anything that is not an integer, is a failure. a equals INT(a / b) * b + a % b.',
  I, 'all dividends by constant divisors; all pairs within the bounds',
  'Rounding shows only in quotients whose fourth digit is 5 or more, or that are negative; the tests divide a few numbers.',
  ['div', 'mod', 'vu', 'dd', 'ae'], [('scale and rounding', ('div', 'evaluate')), ('remainder', ('mod', 'evaluate')), ('result type', ('vu', 'castDecimal'))], AE)
p('C15', 'Decimal +, - and * are exact', 'The sum, difference and product of numbers of which at least one is a decimal is exact to the last digit, for decimals of any precision and magnitude, for floats and doubles by the decimal they print as, and for decimal literals.',
  I, 'all decimals within the magnitude bounds paired with every numeric type',
  'A calculation in binary floating point is right for almost all values a test would use.',
  ['add', 'sub', 'mul', 'dd', 'ae'], [('decimal arithmetic', ('add', 'evaluate')), ('conversion', ('dd', 'getValue'))], AE)
p('C16', 'Unary minus negates exactly', 'Minus in front of a field, literal, group, function or another minus yields the exact negated value for every numeric type, including the smallest int; it fails only where the negated value does not fit in 64 bits. Negative values can be used wherever a number can.',
  I, 'all values of every numeric type',
  'The extreme values and the less common types are the ones that go wrong, and no test has them.',
  ['un', 'li', 'ae', 'vu'], [('negation', ('un', 'evaluate')), ('operand', ('li', 'exitUnaryArithmeticExpression'))], BA)
p('C17', 'Parentheses group; products bind tighter than sums', 'Every operator applies to exactly the operands that the parentheses give it, at any depth. Without parentheses *, / and % bind tighter than + and -, and operators of equal rank apply from left to right.',
  IP, 'all groupings of four operands with symbolic values, chains and nesting up to the bound',
  'The tests check a few fixed formulas with one set of numbers; wrong groupings often give the same number.',
  ['li', 'gp', 'ae'], [('operands resolved from the stack of nodes', ('li', 'resolveOperand')), ('precedence in the grammar', ('gp', 'expression'))], AE)
p('C18', 'MIN and MAX are the smallest and the largest value', 'MIN and MAX return exactly the smallest and the largest of two or more numbers, given as fields, literals, computed values or elements of a collection, of any numeric types. No precision is lost.',
  I, 'all values of the numeric types in all positions, up to the bound on the number of values',
  'The position and type of the extreme value are free; the tests fix both.',
  ['min', 'max', 'fs', 'ae', 'vu'], [('comparison in the widest type', ('min', 'evaluate')), ('items flattened', ('vu', 'mapToEvaluatedNodes'))], AE)
p('C19', 'SUM is exact; AVG and MEAN truncate the exact average', 'SUM is the exact sum of its values, or a failure where an integer sum does not fit in 64 bits. AVG and MEAN agree, and are the exact average truncated to two fraction digits for integers and to three once a decimal takes part.',
  I, 'all values within the bounds, up to the bound on the number of values',
  'Wrap-around, rounding and averages that are not representable need particular values; the tests use small ones.',
  ['sum', 'avg', 'mean', 'fs', 'vu'], [('summation', ('sum', 'evaluate')), ('scale and rounding', ('avg', 'evaluate'))], AE)
p('C20', 'MEDIAN is the middle of the sorted values', 'MEDIAN of an odd number of values is the value of the middle rank; of an even number half the sum of the two middle ones, truncated to two fraction digits. The order of the values does not matter.',
  I, 'all values and orders, up to the bound on the number of values',
  'Sorting by the wrong key, or not at all, is right for the sorted small lists in the tests.',
  ['med', 'fs', 'vu'], [('sorting and choosing', ('med', 'evaluate'))], AE)
p('C21', 'MODE is a most frequent value', 'MODE returns one of its values, and no value occurs more often; numbers that are equal count together whatever their types and fraction digits.',
  I, 'all values, coincidences and orders, up to the bound on the number of values',
  'The pattern of equal values is free: late majorities, ties and equal numbers of different types do not occur in the tests.',
  ['mode', 'fs', 'vu'], [('counting', ('mode', 'evaluate'))], AE)
p('C22', 'LEN counts; INT drops the fraction', 'LEN is the number of characters of a text, also of an empty one, and the number of items of a list of values or a collection. INT drops the fraction of any number towards zero and loses no other digit.',
  I, 'all texts and values within the bounds',
  'Negative fractions, values beyond int, empty texts and texts that look like something else are not in the tests.',
  ['len', 'int', 'fs', 'vu'], [('length', ('len', 'evaluate')), ('truncation', ('int', 'evaluate'))], AE)
p('C23', 'DAYS_ELAPSED counts the days up to today', 'DAYS_ELAPSED of a date is the number of days from it to the current date, negative for later dates, for date objects, texts and literals. Everything that is not a date is a failure.',
  I, 'all dates and all current dates within the bounds',
  'The tests can only run on one current date, and use a few offsets from it.',
  ['de', 'vu'], [('difference in days', ('de', 'evaluate'))], BA)
p('C24', 'A literal stands for exactly the value it spells', 'An integer, decimal, boolean, date, date-time or quoted text literal denotes exactly the value that is written, of any length and with leading zeros; nothing inside quotes is interpreted. A literal whose value cannot be represented is a failure. A field name denotes what the data holds under exactly that name.',
  I, 'all digits and characters of literals within the length bounds',
  'The literals in the tests are short and plain; truncation and reinterpretation depend on length and characters.',
  ['lx', 'li', 'vu'], [('tokens', ('lx', 'generated automaton')), ('type of a literal', ('li', 'getDataType')), ('conversion', ('vu', 'convertValue'))], BA)
p('C25', 'Caching never changes an answer', 'An evaluator with a caching parser gives for every sequence of evaluations the same results as one without a cache, whatever the cache size, whatever was evaluated before and whichever entries were dropped. Expressions and default fields that resemble each other are never confused, and failures stay failures.',
  ['histories', 'inputs'], 'histories up to the bound over a pool of expressions, with different data each time and every eviction',
  'The tests evaluate a cached expression at most twice; state that leaks from one evaluation into a later one needs a history.',
  ['cp', 'bp', 'li'], [('cache key', ('cp', 'getNode')), ('parsed expressions shared between evaluations', ('cp', 'cache'))], BA)
p('C26', 'Evaluation changes nothing', 'Evaluating an expression leaves the data with the same keys, values and order, works on unmodifiable data, and has no influence on any later evaluation by the same or another evaluator. The result depends only on the expression, the default field and the fields that the expression names.',
  ['inputs', 'histories'], 'all expressions of the pool over symbolic data, repeated and interleaved',
  'The tests never look at the data afterwards, and evaluate once.',
  ['be', 'ae', 'vu', 'bp', 'med', 'mode'], [('no state in the evaluators', ('be', 'fields')), ('fresh listener per parse', ('bp', 'parse'))], BA)
p('C27', 'The default field stands in for missing operands only', 'With a default field every operator without a left operand applies to that field, in any combination of such operators. Expressions that name their fields are unaffected by it. Without a default field, or without a value for it, the evaluation fails.',
  IP, 'all operators, types and combinations in the pool over symbolic values',
  'The tests use one comparison with a default field.',
  ['li', 'be', 'bp'], [('substitution', ('li', 'mapTypesExpressionContextField'))])
p('C28', 'Spelling of keywords and white space do not matter', 'Writing the operators and functions in upper or lower case, && and || for AND and OR, either kind of quotes, any amount and kind of white space between the parts, or superfluous parentheses never changes the result of an expression. Neither does the default locale of the machine.',
  IP, 'expressions that use every keyword, with symbolic white space and data',
  'The tests write each operator in one or two ways; the statement relates all spellings for all data.',
  ['lx', 'gp', 'li', 'op', 'ft'], [('token definitions', ('lx', 'generated automaton')), ('operators by symbol', ('op', 'getOperatorFromSymbol')), ('functions by symbol', ('ft', 'getArrayFunctionFromSymbol'))])
p('C29', 'A power with a natural exponent is the repeated product', 'x ^ n for n = 0, 1, 2, ... is the n-fold product of x, exactly where the result has at most 53 bits, and ^ binds tighter than the other operators.',
  I, 'bases within the bounds with exponents up to 8',
  'The tests raise two small numbers to a power.',
  ['exp', 'vu', 'ae'], [('power', ('exp', 'evaluate')), ('result type', ('vu', 'castDecimal'))], BA)
p('C30', 'Text that is not an expression is rejected as a whole', 'A text that contains anything that does not belong to the expression, such as a character of no token, a superfluous operand or closing parenthesis or a keyword in the wrong place, is a failure. It is never evaluated in part. A missing closing parenthesis at the very end is the only omission that is tolerated.',
  IP, 'all positions of insertions into a pool of expressions; a pool of malformed texts',
  'The tests try a few malformed texts; where and what is superfluous is free.',
  ['bp', 'li', 'gp', 'lx'], [('error listener', ('bp', 'parse')), ('validation of the tree', ('li', 'resolveOperand'))], BA)

p('C31', 'The parsed tree states the expression as written', 'parseExpression returns a tree whose nodes state exactly the operators, functions, fields and literals of the expression: every operand on the side where it is written, in the order and number written, literals with their type and value, groups as the parentheses and the order of binding demand, and the default field where an operand is missing. A caching parser returns the same tree every time.',
  IP, 'expressions of every construct with symbolic field names and literals of every type',
  'Whoever translates the tree into a query or stores it relies on every node; the tests look at some nodes of a few fixed expressions, and evaluation hides an exchanged or lost operand wherever the results coincide.',
  ['bp', 'li', 'cp', 'gp', 'lx', 'cn', 'fn'], [('tree built from the stack of nodes', ('li', 'resolveOperand')), ('literals with their types', ('li', 'getDataType')), ('items in order', ('li', 'getArrayElements'))], ['the Try<Node> returned by parseExpression of BoolParser and CachedBoolParser, through the getters of the nodes'])
p('C32', 'An expression may stand wherever its value may', 'Replacing a parenthesised expression by a field that holds its value, or a literal by a field with the same value, never changes the answer: in comparisons, arithmetic, calls, lists and logical expressions. Where the part has no value the whole that needs it has none. The arithmetic and the boolean evaluator agree on conditions.',
  IP, 'a pool of expressions and contexts over symbolic integers, decimals and collections',
  'It relates two evaluations of different expressions over the same data for every value; conversions that depend on whether a value is computed, literal or a field agree on the small numbers of the tests.',
  ['ae', 'be', 'vu', 'fs', 'os', 'li'], [('operands computed recursively', ('ae', 'evaluate')), ('values of operands', ('be', 'getValue')), ('items of lists and calls', ('be', 'resolveArrayElements'))], BA)

p('C33', 'Evaluators and parsers may be shared by threads', 'When two threads use the same parser, evaluator or caching parser at the same time, or one makes an evaluator while the other evaluates, each gets the answer it would get alone, with its own data and default field, whatever the other does in between.',
  ['inputs', 'schedules'], 'two callers over every shared object; the second runs as a whole at every point where the first touches what both share and either writes',
  'The tests are sequential: a member or static that holds what belongs to one evaluation shows only when another evaluation falls in between.',
  ['be', 'ae', 'bp', 'cp', 'li', 'of', 'vu'], [('no state between calls', ('be', 'fields')), ('fresh listener per parse', ('bp', 'parse')), ('registries of operators', ('of', 'initialize')), ('cache shared by callers', ('cp', 'cache'))], BA)

exec(open(os.path.join(V, 'doc', 'more.py')).read()) if os.path.exists(os.path.join(V, 'doc', 'more.py')) else None

with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for q, _ in P: f.write(json.dumps(q) + '\n')
NOTE = 'Bounded: every path of the real code over the stated inputs is explored and every assertion decided by Z3 for all values within the bounds recorded in the evidence; beyond them nothing is claimed. Trusted: the interpreter of bytecode and its models of JDK and library methods (checked on every path against a native run of the same witness), Z3 and ASM.'
m = dict(version=1, setup_cmd='bin/setup', checks=[dict(property=q['id'], quick_cmd='bin/check %s quick' % q['id'], thorough_cmd='bin/check %s thorough' % q['id'],
    technique='symbolic execution of the compiled bytecode (source regenerated from /repo on every run) with SMT (Z3); counterexamples replayed natively', level='model_checking', level_note=(n + ' ' if n else '') + NOTE) for q, n in P], not_applicable=NA if 'NA' in globals() else [],
    notes='One engine (engine/src/sx) and one harness class per property (harness/h). bin/show ID summarises the evidence of a run.')
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
