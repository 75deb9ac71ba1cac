#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json, os
V = os.path.dirname(os.path.abspath(__file__))
from checks import CHECKS
S = 'p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor'
ELEM, REV, CLS, IO, NUM = S + '_elem_func_impl.hpp', S + '_rev_func_impl.hpp', S + '_class_impl.hpp', S + '_io_impl.hpp', S + '_num_func_impl.hpp'
FE = ['p1788/infsup/base_interval.hpp', 'p1788/infsup/interval.hpp', 'p1788/infsup/decorated_interval.hpp']
P = []
def prop(id, title, stmt, over, text, why, files, mech, observe=None, tech='', note=''):
    a = dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])
    if observe: a['observe_at'] = observe
    a['hook_needed'] = None
    P.append((dict(id=id, title=title, statement=stmt, quantifier=dict(over=over, text=text), why_tests_cant=why, anchors=a), tech, note))

prop('A01', 'Forward operations enclose every point value',
  'For every forward arithmetic or elementary operation and all valid bare or decorated operands of bound type float, double or long double (same or mixed types), the resulting interval contains the exact real value of the operation at every tuple of points of the operands at which it is defined. This holds whichever of the equivalent spellings (flavor function, static member, free function, operator) is used.',
  ['inputs'], 'all operations x all operand intervals of all bound types, including subnormal, huge, unbounded and singular operands',
  'the tests evaluate a few dozen fixed operand pairs per operation; containment is a claim about every real point of every pair of intervals',
  [ELEM] + FE, [('directed rounding of monotone pieces through MPFR', ELEM), ('extremum and pole placement for sin, cos, tan, pow, atan2', ELEM)],
  ['returned interval bounds'], 'property-based testing: generated operand boxes and sample points against a high-precision enclosure of the point value',
  'Sampled points of generated boxes; trusts MPFR at 160+ bits.')
prop('A02', 'Forward operations return the tightest representable interval',
  'For every forward operation and all valid operands, the result is exactly the smallest interval with bounds of the result type that contains the range of the operation over the operands (empty when the operands miss the domain). In particular each bound is the correctly rounded exact bound, including under- and overflow, and mixed-type operands are rounded once only.',
  ['inputs'], 'all forward operations x all operands x all combinations of bound types',
  'a bound off by one ulp, or a wrong branch in a sign or monotonicity case split, shows only for particular operands of which the tests hold a handful',
  [ELEM, 'p1788/util/mpfr_var_impl.hpp'], [('case analysis on operand signs and monotone pieces', ELEM), ('precision, exponent range and subnormal rounding of the bound type', 'p1788/util/mpfr_var_impl.hpp')],
  ['returned interval bounds'], 'property-based differential testing against an independent exact-range reference model', 'Every generated case is compared bit for bit with a reference range computed in an unrestricted exponent range at 160 bits or more.')
prop('A03', 'Forward operations deliver the right decoration',
  'For every forward operation on decorated intervals the decoration of the result is the weakest of the operands\' decorations and the strongest decoration that truly describes the operation on the operand box (common: defined and continuous at each point with bounded operands and result; defined and continuous on the box; defined; otherwise trivial). The interval part equals that of the bare operation, and any NaI operand gives NaI.',
  ['inputs'], 'all forward operations x all decorated operands',
  'decorations depend on where the box lies relative to domain boundaries, discontinuities and overflow thresholds; tests sample few such positions',
  [ELEM], [('local decoration computed per operation and combined with min', ELEM)],
  ['decoration and interval part of the result'], 'property-based differential testing against a decoration model', 'The model derives definedness and continuity from the exact range analysis.')
prop('A04', 'Forward operations are inclusion isotonic',
  'For every forward operation, shrinking any operand to a sub-interval (possibly of a narrower bound type) never produces a result that is not contained in the result for the original operands. The decoration of the result for the smaller operands is never weaker than for the larger ones when the operands carry the same decorations, unless the smaller result is empty.',
  ['inputs'], 'all pairs of nested operand boxes',
  'a relation between two runs over all nested pairs; tests check single runs',
  [ELEM], [('consistent case splits on nested boxes', ELEM)], ['two results compared'], 'metamorphic property-based testing on nested operand boxes', 'No oracle is needed besides set inclusion.')
prop('A05', 'Reverse operations keep every solution',
  'Every reverse operation returns an interval that contains every real number of the domain constraint whose image under the operation (for some value of the other operand, if any) lies in the given target interval; the result never leaves the domain constraint. Decorated reverse operations return the same interval with the trivial decoration, and NaI for a NaI operand.',
  ['inputs'], 'all implemented reverse operations x all target, operand and domain-constraint intervals, with and without domain constraint, same and mixed bound types',
  'losing a solution needs a periodic branch or rounding corner case that a few test intervals do not reach',
  [REV], [('inverse images branch by branch', REV)], ['returned interval'], 'property-based testing: solutions are constructed first, then must be contained', 'Sampled solutions, membership of the image decided by high-precision enclosures.')
prop('A06', 'Algebraic reverse operations return the tightest interval',
  'sqr_rev, abs_rev, cosh_rev, pown_rev and mul_rev return exactly the smallest representable interval that contains all solutions inside the domain constraint. When there is no solution the result is empty.',
  ['inputs'], 'all targets, exponents, operands and domain constraints of all bound types', 'one-ulp losses, wrong sign cases and wrong intersections show only on particular operands',
  [REV], [('inverse images rounded outwards and intersected with the domain constraint', REV)], ['returned interval'], 'property-based differential testing against an exact solution-set model', 'Bit-for-bit comparison of generated cases with the model.')
prop('A07', 'Two-output division returns the exact solution set',
  'The two-output reverse multiplication returns the solution set of x*b=c over its operands as zero, one or two tightest intervals in increasing order, two exactly when the set has a gap around zero; unused outputs are empty. Decorated calls give the right decoration for the first output (the division\'s own when the divisor excludes zero) and trivial decoration otherwise, and NaI for NaI operands.',
  ['inputs'], 'all operand pairs incl. zero-containing divisors and unbounded numerators', 'the result shape depends on 20+ sign cases each with rounding; tests hit few operands per case',
  [S + '_mul_rev_to_pair_func_impl.hpp'], [('sign case table', S + '_mul_rev_to_pair_func_impl.hpp')], ['returned pair'], 'property-based differential testing against an exact solution-set model', 'Bit-for-bit comparison of generated cases with the model.')
prop('A08', 'Cancellative addition and subtraction are tight inverses',
  'cancel_minus(x,y) returns the tightest interval z with y+z containing x whenever y is not wider than x (widths compared exactly), and the entire line when no such interval is guaranteed or an operand is unbounded, with empty operands treated as the standard prescribes; cancel_plus(x,y) equals cancel_minus(x,-y). Decorated results carry the trivial decoration.',
  ['inputs'], 'all operand pairs, in particular widths that differ by less than one ulp', 'the decision whether the widths fit must be exact; rounding makes it wrong only for rare pairs',
  [S + '_cancel_func_impl.hpp'], [('exact width comparison and outward rounding', S + '_cancel_func_impl.hpp')], ['returned interval'], 'property-based differential testing against exact rational arithmetic', 'Bit-for-bit comparison of generated cases.')
prop('A09', 'Intersection and convex hull are exact set operations',
  'intersection and convex_hull return the tightest interval containing the set intersection and the union of their operands, are symmetric in their operands, and treat the empty set as absorbing and neutral element respectively. Decorated calls return the trivial decoration (NaI if an operand is NaI), and a result type wider than all operands makes the result exact.',
  ['inputs'], 'all operand pairs of all bound type combinations', 'ordering, touching, nesting and mixed precision give many configurations with exact equality requirements',
  [S + '_set_op_impl.hpp'], [('min/max of bounds with outward conversion', S + '_set_op_impl.hpp')], ['returned interval'], 'property-based differential testing against a set model', 'Bit-for-bit comparison of generated cases.')
prop('A10', 'Comparison relations and predicates follow their set definitions',
  'Every comparison relation (equal, subset, superset, less, greater, precedes, succeeds, interior, strict variants, disjoint, == and !=), membership test and predicate (empty, entire, common, singleton, NaI) returns exactly the truth value of its set-theoretic definition for all operands, also across bound types, in all call spellings. A NaI operand makes every relation and predicate false except the NaI test and !=.',
  ['inputs'], 'all pairs of intervals incl. empty, unbounded, touching and almost equal ones, all bound type pairs', 'a wrong strictness or infinity special case shows only for specific bound coincidences',
  [S + '_bool_func_impl.hpp', S + '_rec_bool_func_impl.hpp', 'p1788/infsup/base_interval_bool_func_impl.hpp'], [('bound comparisons', S + '_bool_func_impl.hpp')], ['returned bool'], 'property-based differential testing against set definitions', 'Every relation evaluated on each generated pair.')
prop('A11', 'The overlap relation is complete and exclusive',
  'For any two intervals the overlap function returns exactly the one of the sixteen states that describes their relative position, and exchanging the operands returns the converse state. Bound types may differ, and a NaI operand gives the undefined state.',
  ['inputs'], 'all pairs of intervals', 'sixteen states by exact bound coincidences including singletons and infinities',
  [S + '_rec_overlap_impl.hpp', 'p1788/overlapping/overlapping.hpp'], [('bound comparisons', S + '_rec_overlap_impl.hpp')], ['returned state'], 'property-based differential testing against a set model', 'Every generated pair is compared in both orders.')
prop('A12', 'Numeric functions of intervals are correctly rounded',
  'inf, sup, mid, rad, wid, mag and mig return the correctly rounded exact value in the direction that keeps them sound for the requested result type (inf down, sup, rad, wid and mag up, mig down, mid to nearest), with the documented values for empty, unbounded and NaI operands. If the result type can represent the bounds, the midpoint of a non-empty interval is finite and inside it, and midpoint and radius delivered together enclose the interval.',
  ['inputs'], 'all intervals x result types x operand types', 'overflow in midpoint and width, subnormal halves and narrowing conversions occur only for particular bounds',
  [NUM], [('directed MPFR evaluation per function', NUM)], ['returned number'], 'property-based differential testing against exact arithmetic', 'Bit-for-bit comparison of generated cases.')

CON = 'p1788/infsup'
prop('A13', 'Construction and conversion give the tightest valid interval',
  'Constructing an interval from two numbers (of any types), from two numbers and a decoration, or from another bare or decorated interval (of any bound type) gives the tightest interval of the bound type that contains the source, with the decoration com weakened to dac when a bound overflows. Two numbers that are no interval, or a decoration that contradicts the interval or is none, give the empty interval or NaI and raise exactly the documented exception flag; the interval part of NaI is empty and raises its flag; a valid source raises none.',
  ['inputs'], 'all pairs of numbers incl. infinities and NaN, all decorations incl. bit patterns that are none, all source intervals, all pairs of types, constructors and flavor functions alike',
  'narrowing overflow, numbers that only differ in the wider type, and contradictory decorations need particular combinations of values and types; the tests fix a few',
  [CLS, S + '_util_func_impl.hpp', S + '_validation_func_impl.hpp', CON + '/interval.hpp', CON + '/decorated_interval.hpp'],
  [('outward conversion of bounds between types', CLS), ('validation of bounds and decoration', S + '_validation_func_impl.hpp')],
  ['constructed object', 'exception state'], 'property-based differential testing of constructors against an exact model', 'Every generated construction is compared bit for bit, flags included, with the model.')
prop('A14', 'Interval literals are read as the tightest enclosing interval',
  'Every text of the literal grammar (inf-sup, point, uncertain, special; decimal, hexadecimal and rational numbers; any letter case and admissible white space; decorated where allowed) is accepted by constructors, flavor text functions and stream extraction, and yields the tightest interval of the bound type that contains the exact value of the literal, with the stated decoration or the strongest that fits. No exception flag is raised by a valid literal, and stream extraction consumes exactly the literal.',
  ['inputs'], 'all literals of the grammar x bound types x bare and decorated x ways of reading, with arbitrary text behind the literal in a stream',
  'the grammar is infinite, and tightness depends on exact decimal to binary rounding of numbers that the tests pick by hand',
  [IO, CLS, 'p1788/util/io.hpp', 'p1788/infsup/base_interval_io_impl.hpp'], [('regular expressions of the grammar and exact conversion of numbers', IO)],
  ['interval read', 'position of the stream'], 'grammar-based fuzzing against an independent exact reader of literals', 'The reference reader is hand-written and computes bounds with exact rationals.')
prop('A15', 'Text that is no interval literal is rejected cleanly',
  'A text outside the literal grammar, with lower bound above the upper bound, or with a decoration that contradicts the interval never yields an interval: constructors and text functions give the empty interval or NaI and raise the undefined operation flag, stream extraction sets the fail bit (throwing only if the stream is told to) and leaves its target unchanged. No text whatsoever makes the reading functions crash, hang or throw any other exception.',
  ['inputs'], 'all texts: mutated literals, inadmissible decorations, swapped bounds, exponents at the limits of int, random bytes',
  'rejection has to hold for the complement of an infinite grammar; tests hold a list of malformed texts',
  [IO, CLS, 'p1788/util/io.hpp', 'p1788/infsup/base_interval_io_impl.hpp'], [('regular expressions of the grammar, range checks of exponents and bounds', IO)],
  ['interval read', 'exception state', 'stream state'], 'mutation-based fuzzing of literals against an independent recogniser', 'Two listed known findings: very long literals and very large exponents (resource exhaustion).')
prop('A16', 'Printed intervals enclose the interval, to the requested precision',
  'Whatever the manipulators, the text printed for an interval denotes an interval that contains it; each bound printed in inf-sup form is the correctly directed rounding of the bound to the requested format and precision, the uncertain form is at most a few units of its last digit too wide, and hexadecimal output without precision is exact. Letter case, widths, punctuation, special-value style and decoration appear as requested, the blanks that fill a requested number or string width stand where the layout puts them, and the number in front of a symmetric uncertain form is the correctly rounded midpoint. Output neither fails nor raises a flag, and what is printed with punctuation the library reads back to an interval that contains the original (NaI to NaI, empty to empty).',
  ['inputs'], 'all intervals x all combinations of manipulators, precisions and widths',
  'the product of formats, precisions and bound magnitudes is far beyond the fixed strings the tests compare with',
  [IO, 'p1788/io/io_manip.hpp', 'p1788/util/mpfr_var_impl.hpp', 'p1788/infsup/base_interval_io_impl.hpp'],
  [('directed conversion of bounds to text', IO), ('radius of the uncertain form', IO)], ['printed text'],
  'property-based testing with an exact reader of the printed text (enclosure, round trip, exact digits)', 'Digits of inf-sup output come from an independent directed conversion; the uncertain form has a stated slack.')
prop('A17', 'The type an operand is stored in does not matter',
  'Calling any operation, relation or numeric function with an operand stored in another bound type that represents it exactly gives the same result. Asking for a wider result type never gives a result that is not contained in the one of the narrower type.',
  ['inputs'], 'all functions x all operands x all combinations of operand and result types', 'mixed-type overloads form a product of types that the tests visit at a few points with a few values',
  [ELEM, REV, NUM, 'p1788/util/mixed_type_traits.hpp'] + FE, [('conversion of mixed-type operands to a common type', ELEM)], ['results of the calls'],
  'metamorphic property-based testing over operand and result types', 'No oracle is needed besides equality and set inclusion.')
prop('A18', 'All spellings of a call agree',
  'Every function gives the same result through each of its spellings: flavor function, static member, free function, operator, with and without explicit result type, with default or explicit entire domain constraint. Applied to decorated operands other than NaI it gives the interval part, number or truth value it gives for the bare operands; converse relations are the same relation with exchanged operands.',
  ['inputs'], 'all functions x all operands x all spellings', 'each spelling is a separate piece of forwarding code and most are exercised by no or one operand in the tests',
  FE + [ELEM, REV, 'p1788/infsup/base_interval_elem_func_impl.hpp', 'p1788/infsup/base_interval_rev_func_impl.hpp'], [('forwarding templates', 'p1788/infsup')], ['results of the calls'],
  'metamorphic property-based testing over call spellings', 'No oracle is needed besides equality.')
prop('A19', 'Exception flags accumulate and throw exactly as configured',
  'Along any history, the exception state is exactly the union of the flags signalled since it was last cleared or assigned: nothing else sets or loses a flag. A signalled flag that is set in the control word throws the exception class of that flag after recording it; one that is not set never throws; the control word and the state read back as they were set.',
  ['histories'], 'all sequences of constructions, conversions, text input, operations, direct signals, changes of control word and state', 'stickiness and the interaction of control word and state are statements on histories; tests run single signals from a clean state',
  ['p1788/exception/exception.hpp', CLS, S + '_validation_func_impl.hpp'], [('state and control word, signal functions', 'p1788/exception/exception.hpp')], ['exception state', 'thrown exceptions', 'results'],
  'stateful model-based testing of the exception state', 'Histories of up to 24 steps against a model.')
prop('A20', 'Invalid operands are detected and valid ones raise no flag',
  'Any function called with an operand that is no interval (unordered or half-NaN bounds, both bounds the same infinity, a decoration that contradicts the interval) raises the invalid operand flag and returns empty, NaI, NaN, false or the undefined state, never an invalid or seemingly good result. Any function called with valid operands only returns a valid result and raises no flag, from every exception state and control word.',
  ['inputs', 'histories'], 'all functions x all invalid and valid operands x positions of the invalid one x exception states and control words', 'the tests pass one or two invalid representations to some functions; every operand position of every function needs its check',
  [S + '_validation_func_impl.hpp', ELEM, REV, NUM, S + '_bool_func_impl.hpp', S + '_cancel_func_impl.hpp', S + '_mul_rev_to_pair_func_impl.hpp'], [('validation at entry of each function', S + '_validation_func_impl.hpp')], ['result', 'exception state'],
  'property-based fault injection into operands', 'Invalid operands are generated for every operand position of every function that takes a representation.')
prop('A21', 'Reductions are correctly rounded',
  'sum, sum_abs, sum_sqr and dot return the exact sum of their terms rounded once in the requested direction, whatever cancellation, intermediate overflow or underflow occurs, in any order of the terms. Infinities and NaN among the terms give the result of the extended real sum, and the sum of no terms is zero.',
  ['inputs'], 'all vectors of all number types x rounding modes', 'exactness fails only on cancelling, overflowing or underflowing vectors; tests hold some with few terms',
  ['p1788/reduction/reduction.hpp'], [('exact summation by mpfr_sum', 'p1788/reduction/reduction.hpp')], ['returned number'], 'property-based differential testing against exact accumulation', 'The reference accumulates in fixed point wide enough to be exact.')
prop('A22', 'Results do not depend on what happened before',
  'A call gives the same result whenever it is made: after any other calls, in any order, whatever exponent range, default precision, rounding mode or caches of the MPFR library are left behind, after setup and teardown of the flavor, in any exception state, floating-point rounding mode, memory content, errno or global locale. No call changes the floating-point rounding mode.',
  ['histories'], 'all sequences of calls and perturbations of global state', 'tests make each call once in a fresh global state',
  [S + '_setup_func_impl.hpp', 'p1788/util/mpfr_var.hpp', 'p1788/util/mpfr_var_impl.hpp'], [('exponent range set up and restored around each computation', 'p1788/util/mpfr_var_impl.hpp')], ['results of repeated calls'],
  'stateful metamorphic testing: each call repeated along a history of perturbations', 'Results in the initial state are compared with results along the history.')
prop('A23', 'Output settings stick to one stream; decorations and overlap states too',
  'An output manipulator changes exactly its own setting of exactly its own stream and lasts until changed; settings travel with copyfmt, swap and move, and printing does not disturb the stream\'s standard format. Decorations and overlap states are printed by name or number in the requested case; a decoration is read from any of these spellings consuming just it, and anything else sets the fail bit and leaves the value as it was.',
  ['histories', 'inputs'], 'all histories of manipulators, prints and stream operations on several streams; all texts read as decorations', 'stickiness, independence of settings and of streams are statements about histories',
  ['p1788/io/io_manip.hpp', 'p1788/decoration/decoration.hpp', 'p1788/overlapping/overlapping.hpp', IO], [('stream storage slots per setting', 'p1788/io/io_manip.hpp'), ('output and input of decorations', 'p1788/decoration/decoration.hpp')], ['printed text', 'decoration read', 'stream state'],
  'stateful model-based testing of stream settings', 'Each print is compared with a fresh stream configured as the model says; spellings with fixed tables.')
prop('A24', 'Calls are memory safe and leave nothing behind',
  'No call, with whatever operands, texts, widths, precisions or exceptions thrown, accesses memory outside its objects or otherwise has undefined behaviour. Nothing stays allocated after a call, and no result depends on uninitialised memory.',
  ['inputs', 'configurations'], 'all functions x all operands, with exceptions thrown and large formats', 'the tests look at values only and pass fixed strings; leaks and overreads do not show in them',
  ['p1788/util/mpfr_var.hpp', 'p1788/util/mpfr_var_impl.hpp', 'p1788/reduction/reduction.hpp', IO], [('ownership of MPFR variables', 'p1788/util/mpfr_var.hpp'), ('text buffers', 'p1788/util/mpfr_var_impl.hpp')], ['allocation balance', 'sanitizer reports', 'results over differently filled memory'],
  'fuzzing of every function under sanitizers, with allocation counting and memory perturbation', 'ASan, UBSan and container assertions on a part of the cases, allocation balance on all.')
prop('A25', 'Programs of several translation units behave as one',
  'Any program whose source files include any of the library headers in any order, as first headers, with any supported language standard and optimisation level, compiles and links. Its source files see the same operations, exception state, and stream settings as one file would.',
  ['programs', 'configurations'], 'all programs of one to several source files, header selections and orders, language standards C++11 to C++20, optimisation levels', 'each test is a program of one file with one header order',
  ['p1788/p1788.hpp', 'p1788/decoration/decoration.hpp', 'p1788/io/io_manip.hpp', 'p1788/exception/exception.hpp', 'p1788/reduction/reduction.hpp'], [('inline or template definitions only, self-contained headers', 'p1788/p1788.hpp')], ['compiler and linker', 'output of the program'],
  'generated multi-file programs, compiled, linked strictly and compared differentially', 'A few dozen programs per quick run, hundreds in the thorough one.')
prop('A26', 'Threads do not disturb each other',
  'Threads that use the library at the same time each get the results, exceptions, exception state and control word they would get if they ran alone. There is no data race between them.',
  ['schedules', 'histories'], 'all interleavings of call sequences of two to six threads', 'no test starts a thread',
  ['p1788/exception/exception.hpp', CLS, IO, 'p1788/util/mpfr_var_impl.hpp'], [('thread-local exception state, thread-local MPFR state', 'p1788/exception/exception.hpp')], ['per-thread results and exception state', 'race detector'],
  'stress testing of generated thread programs against sequential runs, also under ThreadSanitizer', 'Interleavings are those the scheduler produces; the race detector covers unobserved ones of the same accesses.')
prop('A27', 'Periodic reverse operations stop next to the outermost solutions',
  'sin_rev, cos_rev and tan_rev do not return more than they have to: each bound of the result that belongs to a domain-constraint bound of moderate size (absolute value below 2^(p-2) for p digits, at most 2^61) lies within sixteen units in the last place (of the bound, or of 4 if that is larger) of a real solution, on whichever period it lies. The result is empty if the target misses the range of the function altogether.',
  ['inputs'], 'all targets and domain constraints of all bound types, bare and decorated, same and mixed types',
  'a domain constraint returned unreduced, or a solution taken from the wrong period or slope, is sound and shows only as width for particular positions of target and constraint',
  [REV], [('leftmost and rightmost period found by argument reduction', REV)], ['returned interval'],
  'property-based testing: the image of the neighbourhood of each returned bound must meet the target', 'The image of the neighbourhood comes from the exact range model.')
prop('A28', 'Symmetries and identities between operations hold exactly',
  'Negating operands, exchanging operands and equivalent formulations commute exactly with every operation: odd and even functions, f(-x,-y) for arithmetic, reverse, cancellative, set and numeric functions and relations, commutativity, and identities such as x-y = x+(-y), recip(x) = 1/x = pown(x,-1), sqr(x) = pown(x,2), fma(x,y,0) = x*y, floor(x) = -ceil(-x), mul_rev(b,c) = hull of the two-output division. Scaling all operands of the basic operations by powers of two scales the result, far from the limits of the type. Bounds and decorations agree bit for bit (up to signs of zero).',
  ['inputs'], 'all functions x all operands x all bound type combinations, bare and decorated',
  'each is a relation between two calls over all operands; the code treats signs by separate cases which the tests visit with unrelated values',
  [ELEM, REV, NUM, S + '_cancel_func_impl.hpp', S + '_mul_rev_to_pair_func_impl.hpp', S + '_bool_func_impl.hpp', S + '_rec_overlap_impl.hpp', S + '_set_op_impl.hpp'],
  [('mirrored sign cases', ELEM), ('mirrored sign cases of inverse images', REV)], ['two results compared'],
  'metamorphic property-based testing over mirrored and rewritten calls', 'No oracle is needed besides equality.')

prop('A29', 'Interval input and output composes with other use of a stream',
  'Intervals can be written and read among other items on one stream. Extraction consumes exactly its literal and leaves the rest, whatever the pieces in which the buffer delivers the characters; it sets no end-of-file bit after a success, leaves the variable as it was when it fails, when the stream has failed before and when the buffer throws, and throws only what the exception mask asks for. Insertion into a stream that has failed writes nothing; if the buffer fails or throws midway then exactly the text up to there is written, the stream gets bad, and an exception leaves only as the mask asks for.',
  ['histories', 'inputs', 'fault_sequences'], 'all sequences of items, exception masks and stream buffers, with a failure of the buffer at any position', 'the tests use string streams that never fail and mostly read one literal per stream',
  [IO, 'p1788/util/io.hpp', 'p1788/infsup/base_interval_io_impl.hpp'], [('extraction, state of the stream', IO), ('white space', 'p1788/util/io.hpp')], ['position in the stream', 'variable read', 'stream state', 'exceptions', 'text that reached the buffer'],
  'stateful property-based testing with fault-injecting stream buffers', 'Sequences of up to eight items; expected values and positions come from an independent reader of the grammar.')

prop('A30', 'Text conversion does not depend on the locale of the process',
  'Intervals, decorations and overlapping states are written as the same text, and the same text is read as the same value with the same state and flags, whatever locale the process has selected with setlocale or std::locale::global, before the first conversion or between any two: literals always have a period as decimal point, no digit grouping, and keywords in ASCII letters of either case.',
  ['histories', 'inputs', 'configurations'], 'all sequences of conversions and changes of the locale', 'the tests run in the "C" locale only, and what is set up at the first conversion stays for the process',
  [IO, 'p1788/util/io.hpp', 'p1788/util/mpfr_var_impl.hpp', 'p1788/decoration/decoration.hpp'], [('conversion of bounds to text', 'p1788/util/mpfr_var_impl.hpp'), ('matching of literals', IO), ('letters of decorations', 'p1788/util/io.hpp')], ['printed text', 'value read', 'stream state', 'flags'],
  'metamorphic property-based testing: the same sequence of conversions in two fresh processes, one of which changes its locale', 'Locales: four compiled with localedef by the check (de_DE, fr_FR, tr_TR in two encodings) and generated facets; numeric output of a decoration alone is left to the stream.')

prop('A31', 'Results do not depend on how a program is compiled',
  'A program that uses the library computes the same intervals, numbers, truth values, overlapping states, decorations, texts, stream states and flags whichever compiler, optimisation level, language standard from C++11 on and code generation options it is built with: nothing follows the order in which a compiler evaluates the arguments of a function, the signedness of plain char, NDEBUG, contraction of floating-point expressions, or a value that was never set.',
  ['configurations', 'inputs'], 'all ways of compiling a program that keep the semantics of C++, and all calls', 'the tests are built in one way; each of the others runs the same source in another order or with other representations',
  ['p1788/'], [('templates compiled in the program of the user', 'p1788/infsup/'), ('conversion of bounds', 'p1788/util/mpfr_var_impl.hpp'), ('text', IO)], ['results of calls', 'printed text', 'stream state', 'flags'],
  'differential property-based testing: the same generated calls in the same program built in four ways (g++ and clang++, -O0 to -O3, C++11 to C++23, signed and unsigned char, NDEBUG, contraction, preset automatic variables)', 'Builds: g++ 13 and clang 18 on x86-64; the units that draw operands are the same objects in all of them.')

prop('A32', 'A call that ends by an exception leaves nothing behind',
  'When memory runs out, or when an iterator, a stream buffer or a stream raises an exception during a reduction, the reading of text or the writing of an interval, the call ends with that exception, or with the stream state that stands for it, and never reports success with another result. It keeps no memory, leaves the variable to be read and the settings of the stream as they were, returns memory to the allocation functions of GMP and MPFR that it came from, and the same call made afterwards gives its usual result; this also holds for the first conversions of a program.',
  ['fault_sequences', 'inputs'], 'all calls that allocate x every point at which they may be interrupted', 'the tests run with memory to spare and with iterators and buffers that never throw',
  ['p1788/reduction/reduction.hpp', IO, 'p1788/util/mpfr_var_impl.hpp'], [('table of the terms', 'p1788/reduction/reduction.hpp'), ('composition of decorated literals', IO), ('GMP variables of the parser', IO)], ['exceptions', 'stream state', 'variable read', 'allocation balance', 'result of the next call'],
  'fault-injection property-based testing: the k-th allocation fails or the k-th use of an iterator or buffer throws, for generated calls and k', 'Failure of operator new only (GMP and MPFR abort when their own allocation fails, which is their documented behaviour).')

prop('A33', 'Calls depend on operand values only, and variables behave as values',
  'A call gives the same result and raises the same flags whether equal operands are separate objects or one and the same object, as in mul(x,x), sub(x,x), equal(x,x) or fma(x,y,x), and it leaves its operands unchanged. Interval variables behave as values: after any sequence of calls whose results are assigned to variables that may be operands of the same call, of assignments (also to itself), moves, swaps, conversions, container operations and text input, every variable holds exactly the value that was assigned to it last.',
  ['histories', 'inputs'], 'all calls x patterns of operands that are the same object; all sequences of statements over a set of variables', 'the tests pass temporaries or separate variables, compare one result each and never assign a result to its own operand',
  [ELEM, 'p1788/infsup/base_interval.hpp', 'p1788/infsup/interval.hpp', 'p1788/infsup/decorated_interval.hpp'], [('operands passed by reference', 'p1788/infsup/base_interval_elem_func_impl.hpp'), ('copying and conversion of intervals', 'p1788/infsup/interval.hpp')], ['result', 'flags', 'operands after the call', 'all variables after every statement'],
  'metamorphic property-based testing (separate objects against the same object) and stateful model-based testing (random statement sequences against a model of plain values)', 'Types float, double and long double.')
prop('A34', 'Numbers convert with the named rounding, representations are judged exactly',
  'Converting a number between the supported formats (convert_rndd, convert_rndn, convert_rndu) gives the largest number below, the nearest (ties to even), or the smallest number above it, with -0 for a zero rounded downwards and +0 otherwise and NaN for NaN; convert_hull applies this outwards to the bounds of any representation. is_valid says true exactly for the representations of intervals and otherwise says false and raises the invalid operand flag. The number wrapper the operations compute with holds, for every precision, exponent range and rounding mode, the correctly rounded value (subnormal numbers, overflow and the sign of the error included) of what it is set to or what is computed into it, and reading it rounds correctly; two_sum gives the rounded sum and its exact error.',
  ['inputs'], 'all numbers of every format incl. infinities, NaN, subnormal numbers and neighbours of ties x target formats x rounding modes; all pairs of bounds and decorations; wrappers of nine precisions and exponent ranges',
  'correct rounding next to ties, at the borders of the subnormal numbers and of the largest number, and its error sign, depend on single bits; the tests convert a few dozen numbers',
  [S + '_util_func_impl.hpp', S + '_validation_func_impl.hpp', 'p1788/util/mpfr_var_impl.hpp', 'p1788/util/mpfr_util.hpp', CLS],
  [('conversion of numbers', S + '_util_func_impl.hpp'), ('setting, subnormalization and reading of the wrapper', 'p1788/util/mpfr_var_impl.hpp'), ('tests of bounds and decoration', S + '_validation_func_impl.hpp')],
  ['converted numbers', 'verdict and flag', 'value held by the wrapper'], 'property-based differential testing against exact integer rounding', 'The reference rounds integers of 128 bits by hand and does not use MPFR.')

def main():
    impl = [p for p in P if p[0]['id'] in CHECKS]
    with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
        for p, _, _ in impl:
            assert len(p['title']) <= 80, p['id']
            f.write(json.dumps(p) + '\n')
    m = dict(version=1, setup_cmd='python3 run.py setup', checks=[
        dict(property=p['id'], quick_cmd='python3 run.py %s quick' % p['id'], thorough_cmd='python3 run.py %s thorough' % p['id'],
             evidence_file='evidence/%s.json' % p['id'], technique=t, level='exploration', level_note=n) for p, t, n in impl],
        not_applicable=[], notes='No hooks are needed: every check observes the public interface. VERIF_SEED selects the random stream.')
    json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
if __name__ == '__main__': main()
