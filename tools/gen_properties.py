#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the JSON stays well-formed)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=state or [],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=observe, hook_needed=None)))

PARSER="src/parser.rs"; SIMP="src/element/simplify.rs"; XP="src/xprs.rs"

prop("P01","Parsing any text terminates with a usable expression or a usable error",
 "For every UTF-8 text and every parser context, parsing returns either an expression or an error and never panics, aborts or corrupts memory. Every returned expression can then be displayed, cloned, compared, evaluated with its variables supplied, simplified and bound without panicking, and every returned error can be formatted and rendered as a diagnostic without panicking.",
 ["inputs"],"all strings (empty, blank, non-ASCII, malformed, deeply nested, very long) and all contexts",
 "The error tests try nine short ASCII strings; the input space (empty text, repeated operators, multi-byte characters, long or nested text) is unbounded.",
 [PARSER,SIMP,XP],[("byte cursor, from_utf8_unchecked slices","src/parser.rs ParserImpl"),("unreachable!() arms that assume no malformed operator node is ever built","src/xprs.rs, src/element/simplify.rs, src/element/binop.rs"),("span arithmetic in ParseError constructors","src/parser.rs impl ParseError")],
 ["Parser::parse","Xprs Display/Debug/eval/simplify_for/bind_n_runtime","ParseError Display/Diagnostic"],
 [dict(name="cursor",meaning="byte offset of the next unread byte",where="src/parser.rs ParserImpl.cursor")])

prop("P02","Accepted texts mean what the documented order of operations says",
 "A text is accepted exactly when it is a well-formed expression of the documented grammar, and it then evaluates to the value given by the documented order of operations: postfix factorial binds tightest, then power, then unary sign, then (PEJMDAS only) implicit multiplication, then multiplication, division and modulo, then addition and subtraction, with binary operators of equal rank grouping to the left and parentheses overriding. Nothing in the text is skipped or reinterpreted: a text with leftover or misplaced tokens is rejected.",
 ["inputs","configurations"],"all token sequences over numbers, names, operators, parentheses, commas and calls, all variable assignments, both orders of operations",
 "Tests list about forty fixed expressions; grouping is a property of every combination and nesting of operators.",
 [PARSER,"src/utils/precedence.rs","src/token/operator.rs",XP],[("precedence climbing","src/parser.rs ParserImpl::element, get_operator_infos"),("rank table","src/utils/precedence.rs"),("tree evaluation","src/xprs.rs XprsImpl")],
 ["Parser::parse","Xprs::eval"])

prop("P03","Implicit multiplication is multiplication with the configured rank",
 "Writing two adjacent factors without an operator means exactly their product: in PEMDAS builds the text means the same as with an explicit `*` inserted, and in PEJMDAS builds the same as with the whole run of adjacent factors multiplied inside parentheses. A number literal directly following another number literal is never a product and is rejected wherever it appears.",
 ["inputs","configurations"],"all expressions containing runs of adjacent factors (numbers, names of any letter case, calls, parenthesised groups, powers, factorials) at any position, both orders of operations",
 "Nine fixed pairs are tested; where a run starts and ends depends on every neighbouring operator and on what the previous factor was.",
 [PARSER,"src/utils/precedence.rs"],[("juxtaposition detection","src/parser.rs get_operator_infos"),("IMPLICIT_MULTIPLICATION_INFO","src/utils/precedence.rs")],
 ["Parser::parse","Xprs::eval","Xprs Display"])

prop("P04","Compile-time optimisation never changes what an expression computes",
 "With compile-time optimisation enabled, an expression without variables is reduced at parse time to a single number that is exactly the value of the expression as written (including infinities and NaN), and constant sub-expressions are folded the same way. An expression with variables evaluates to the same number as written at every assignment for which every operand in the expression as written is finite and no result is NaN (the sign of zero aside).",
 ["inputs","configurations"],"all expressions and all assignments, stable and nightly rewrite sets; user functions are assumed to be pure",
 "Thirteen fixed expressions are tested, each at no or one point; a rewrite rule is sound only if it holds for every operand shape and value.",
 [SIMP,PARSER],[("rewrite rules","src/element/simplify.rs BinOp::simplify"),("folding of calls and unary operators","src/element/simplify.rs FunctionCall::simplify, UnOp::simplify"),("commutative equality used by the rules","src/element/binop.rs PartialEq")],
 ["Parser::parse","Xprs::eval","Xprs Display"])

prop("P05","Simplifying for a variable is substitution",
 "Simplifying an expression for given variable values and then evaluating it with the remaining variables gives the same number as evaluating the original with all of them, wherever every operand of the original is finite and no result is NaN (sign of zero aside); substituted variables are gone and no other variable appears. The in-place, by-value, single and multiple forms agree, earlier entries win over later ones for the same variable, and naming a variable that does not occur changes no value.",
 ["inputs","histories"],"all expressions, all sequences of substitutions through any mix of the four simplification calls, all values",
 "One fixed expression is simplified for two values; tests do not cover interactions of partial substitution with the rewrite rules.",
 [XP,SIMP],[("simplify_for* family","src/xprs.rs"),("substitution and rewriting","src/element/simplify.rs simplify_for")],
 ["Xprs::simplify_for","Xprs::simplify_for_in_place","Xprs::simplify_for_multiple","Xprs::simplify_for_multiple_in_place","Xprs::eval"])

prop("P06","The reported variables are exactly the ones evaluation needs",
 "At every point of an expression's life (after parsing, cloning and any simplification) its reported variable set is exactly the set of names evaluation looks up: evaluation succeeds when all of them are supplied, extra supplied names are ignored, and with any one of them missing evaluation fails with an error naming a missing variable. Names that resolve to constants or functions are never reported as variables, and without optimisation every variable written in the text is reported.",
 ["inputs","histories"],"all expressions, contexts, simplification histories and supplied-variable sets",
 "Tests check the set for a handful of expressions and one missing variable.",
 [XP,PARSER,"src/element/mod.rs"],[("variable collection","src/element/mod.rs find_variables"),("vars maintenance on simplification","src/xprs.rs simplify_for_in_place, simplify_for_multiple_in_place"),("lookup and EvalError","src/xprs.rs XprsImpl::eval_element")],
 ["Xprs.vars","Xprs::eval","EvalError Display"],
 [dict(name="vars",meaning="set of variables present in the expression",where="src/xprs.rs Xprs.vars")])

prop("P07","Binding yields the same function as evaluation, or names what is missing",
 "For every way of binding (one to nine names, fixed-size array, runtime slice), binding succeeds exactly when every variable of the expression is among the bound names, and the resulting function applied to values in that order equals evaluating the expression with those names set to those values, as often as it is called. Otherwise it fails with an error listing exactly the missing variables, in the one-variable form iff exactly one is missing, however many there are; a runtime-slice function called with too few values reports a missing variable instead of panicking, and values beyond the names are ignored.",
 ["inputs"],"all expressions with zero to several hundred variables, all name lists (permuted, with unused names, incomplete), all values and value counts",
 "Each bind function is tested once with a symmetric sum that any permutation of arguments satisfies, and only with all names present.",
 [XP],[("bind..bind9, bind_n, bind_n_runtime","src/xprs.rs"),("missing-variable error","src/xprs.rs BindError::from_diff")],
 ["Xprs::bind*","BindError Display and variant"])

prop("P08","Evaluation is pure and all evaluation entry points agree",
 "Parsing and evaluation depend only on their arguments: repeating a parse or an evaluation, on a reused or fresh parser, on a clone, in any order, interleaved with other expressions or concurrently from several threads sharing the same parser and expressions, always gives the same result. The checked and unchecked evaluators and the no-variable forms return the same value bit for bit whenever the variables are supplied, and the unchecked forms panic (rather than return a number) when one is missing.",
 ["inputs","histories","schedules"],"all expressions and assignments, all interleavings of parse/evaluate/clone/drop operations, concurrent use",
 "Tests call each entry point once on a few expressions and only check Send and Sync at compile time.",
 [XP,PARSER,"src/context.rs"],[("eval_element and eval_element_unchecked","src/xprs.rs"),("stateless parser borrowing its context","src/parser.rs Parser::parse")],
 ["Xprs::eval","Xprs::eval_unchecked","Xprs::eval_no_vars","Xprs::eval_no_vars_unchecked","Parser::parse","Xprs::try_from"])

prop("P09","The displayed form reads back as the same expression",
 "The text displayed for any expression (parsed or simplified, with finite constants) is itself accepted by a parser with the same context, in either order of operations, and denotes the same expression: same variables needed to the extent optimisation keeps them, and the same value at every assignment where all operands are finite. Without optimisation the operator structure read back is identical to the structure displayed.",
 ["inputs"],"all parsed and simplified expressions, including negative constants, factorials, negations under powers and user functions",
 "Only a few sums and products are ever displayed in tests and none is read back.",
 ["src/element/mod.rs","src/element/binop.rs","src/element/unop.rs","src/element/function_call.rs"],[("Display impls with parenthesisation","src/element/*.rs")],
 ["Xprs Display","Parser::parse"])

prop("P10","Number literals denote their exact nearest double",
 "Every literal that starts with a digit or a decimal point and is made of digits with at most one decimal point, underscores and an optional exponent is accepted with exactly the double nearest to the written decimal (underscores ignored), whatever surrounds it, and malformed ones (no digits, several decimal points) are rejected. An `e` or `E` is an exponent exactly when digits, or a sign and a digit, follow immediately; otherwise it starts a name multiplied by the number.",
 ["inputs"],"all literals of any length, magnitude and underscore placement, in all surrounding contexts",
 "Seven literals are tested; literals form an infinite language with an exponent/constant ambiguity.",
 [PARSER],[("parse_number","src/parser.rs")],["Parser::parse","Xprs::eval"])

prop("P11","Whitespace and redundant parentheses are insignificant",
 "Adding, removing or changing ASCII whitespace between tokens (where tokens stay separate), and around the text, never changes whether a text is accepted nor the resulting expression. Wrapping a whole operand or the whole expression in extra parentheses never changes its value.",
 ["inputs"],"all texts, accepted or not, all placements of space, tab, newline, form feed and carriage return, all operands",
 "Ten fixed pairs, spaces only.",
 [PARSER],[("next_trim","src/parser.rs"),("parenthesised atoms","src/parser.rs atom")],["Parser::parse","Xprs equality","Xprs::eval"])

prop("P12","Built-in constants and functions compute the functions they name",
 "Each built-in name denotes its documented mathematical function, with the documented argument order and number of arguments, over the whole double range including infinities, NaN and signed zero, whether it is called during parsing or at evaluation; `pi` and `e` are the nearest doubles. The variadic functions handle every argument count: minimum and maximum of none are plus and minus infinity, sum of none is zero and mean of none is NaN; minimum and maximum pass over NaN arguments, sum and mean of a NaN are NaN.",
 ["inputs"],"all built-ins, all argument values (and counts for variadic ones), constant and variable arguments",
 "Only sine, cosine, absolute value are ever called in tests, at one or two points.",
 ["src/utils/built_in_functions.rs","src/token/identifier.rs","src/utils/factorial.rs"],[("built-in table","src/utils/built_in_functions.rs"),("name lookup","src/token/identifier.rs from_str")],
 ["Xprs::eval"])

prop("P13","Factorial is the product 1*2*...*n on whole numbers, NaN or infinite elsewhere",
 "The postfix factorial and the factorial function agree for every double: for whole n from 0 to 170 the product 1*2*...*n (exact up to 22, taken in double precision from left to right), positive infinity above, NaN for negative, fractional and NaN arguments, and the gamma function satisfies gamma(n+1) = n! to within rounding. A leading minus applies after the factorial, and repeated factorial signs apply one after another.",
 ["inputs"],"all doubles, through constants, variables, parenthesised operands, partial simplification and repeated application",
 "Ten argument values are tested, three of the 171 table entries.",
 ["src/utils/factorial.rs",PARSER,XP,SIMP],[("table lookup with to_int_unchecked","src/utils/factorial.rs factorial"),("postfix parsing","src/parser.rs element")],
 ["Xprs::eval"])

prop("P14","Name resolution follows the context as it stands when parsing",
 "When a text is parsed, each name means the latest definition given to it in the parser's context, else the built-in of that name, else a variable; later definitions (constant or function) replace earlier ones under the same name, replacing all symbols forgets the previous ones, and looking a name up returns the latest definition. Changing or cloning a context never affects expressions already parsed or other contexts.",
 ["histories","inputs"],"all histories of setting constants and functions (builder and in-place), replacing symbols, cloning, mutating through the parser, parsing and evaluating; names that shadow built-ins",
 "One fixed context with six expressions, built once and never redefined.",
 ["src/context.rs",PARSER,"src/token/identifier.rs"],[("symbol map","src/context.rs Context"),("context-first lookup","src/parser.rs parse_identifier")],
 ["Context setters/getters","Parser::ctx, ctx_mut","Parser::parse","Xprs::eval"],
 [dict(name="symbols",meaning="user-defined constants and functions by name",where="src/context.rs Context.symbols")])

prop("P15","Calls pass exactly the written arguments to functions of matching arity",
 "A call to a function declared with n arguments is accepted exactly when n arguments are written (n from 0 to 255), and a variadic function accepts any number; the function receives the values of the written arguments in written order. A mismatch is rejected with an error stating the declared and the written count and how many to add or remove, and a function name without a call is rejected.",
 ["inputs"],"all declared arities (through the constructors and through every arity and form of the defining macro), all argument counts and argument expressions, constant and variable",
 "Arities one, two and variadic are exercised with one right and one wrong count.",
 [PARSER,"src/token/function.rs","src/element/function_call.rs"],[("argument list and arity check","src/parser.rs parse_arguments, parse_identifier"),("xprs_fn! wrappers","src/token/function.rs")],
 ["Parser::parse","Xprs::eval","ParseError Display and help"])

prop("P16","Declared variable sets are enforced",
 "With a set of expected variables in the context, parsing succeeds exactly when the text parses without that restriction to an expression all of whose variables are in the set, and yields the same expression; otherwise it fails with an error naming a variable that is outside the set and listing the allowed ones. Context constants, functions and built-ins never count as variables, and without a declared set there is no restriction.",
 ["inputs","configurations"],"all expressions and all expected sets, including empty, superset and sets overlapping constants and built-ins",
 "Doc examples try one set with one good and one bad expression.",
 [PARSER,"src/context.rs"],[("expected-variable check","src/parser.rs Parser::parse")],["Parser::parse","ParseError Display and help"])

prop("P17","A bound expression used as a function composes by substitution",
 "Registering a bound expression as a user function and calling it from another expression gives the same value as replacing the call by the bound expression with its parameters substituted by the arguments, at every nesting depth of such definitions. The function stays usable and unchanged after the parser, context and expressions it was built from are dropped.",
 ["inputs","histories"],"all bodies with one to nine parameters, all call sites and argument expressions, chains of definitions",
 "One two-parameter linear body with four call sites.",
 [XP,"src/token/function.rs","src/context.rs"],[("bind closures as dynamic functions","src/xprs.rs bind*, src/token/function.rs new_dyn")],
 ["Xprs::bind*","xprs_fn!","Context::with_fn","Xprs::eval"])

prop("P18","Rejections point at the real problem",
 "Every parse error carries the original text and one label lying inside it on character boundaries, placed where the text first stops being a prefix of any well-formed expression (for argument-count errors, on the call). The message names the actual offending character, number, expected token or counts found at that place, so the error does not depend on what follows, and rendering the diagnostic succeeds.",
 ["inputs"],"all rejected texts, including non-ASCII ones and errors nested inside calls and parentheses",
 "The error tests only check that nine texts fail; message, position and non-ASCII input are untested (marked TODO).",
 [PARSER],[("ParseError constructors and Diagnostic impl","src/parser.rs"),("argument error remapping","src/parser.rs argument")],
 ["ParseError Display","ParseError help/labels/source_code"])

prop("P19","Expression equality is sound and sees commutativity of + and *",
 "Expression equality is reflexive, symmetric and transitive on NaN-free expressions, holds between expressions that differ only by swapping operands of additions and multiplications, and agrees on clones. Equal expressions have the same variables and the same value at every assignment with finite operands (sign of zero aside); expressions differing by swapped operands of a non-commutative operator, an operator, a constant, a name, a function or an argument are unequal.",
 ["inputs"],"all pairs of expressions, in particular pairs related by operand swaps or by a single edit",
 "One pair of commuted sums is compared.",
 ["src/element/binop.rs","src/element/unop.rs","src/element/function_call.rs","src/token/function.rs"],[("commutative PartialEq","src/element/binop.rs"),("function identity","src/token/function.rs FnPointer eq")],
 ["Xprs equality"])

prop("P20","User functions that panic leave memory sound",
 "Whatever a user-supplied function does, including panicking in the middle of parsing, evaluating, simplifying in place or calling a bound function, no value is freed twice, used after being freed or leaked once everything is dropped. The parser, the context, other expressions and clones keep working unchanged after the panic.",
 ["fault_sequences","histories"],"all sequences of operations over shared parsers and expressions with a panic injected at any call of a user function",
 "No test lets a user function panic; the in-place simplification moves values out by raw pointer reads.",
 [XP,SIMP,"src/token/function.rs"],[("in-place replacement of the root","src/xprs.rs simplify_for_in_place, simplify_for_multiple_in_place"),("shared ownership of dynamic functions","src/token/function.rs FnPointer")],
 ["allocator balance","Xprs::eval after the panic"])

prop("P21","The REPL answers every line like the library and ends cleanly",
 "For any session of text lines, the REPL prints for each accepted expression its interpretation, its variables and, after asking for each variable by name, the value the library computes, and for each rejected line a diagnostic, without carrying anything over between lines, all of it before it waits for the next line. It stops with success on a line `exit` or when the input ends before an expression, printing nothing endlessly.",
 ["histories","inputs"],"all sessions of accepted, rejected and blank lines, with numeric answers to variable prompts, ended by `exit` or end of input",
 "The binary has no tests at all.",
 ["src/bin/repl.rs"],[("read-parse-ask-evaluate loop","src/bin/repl.rs main"),("variable prompts","src/bin/repl.rs ask_for_variables")],
 ["REPL standard output and exit status"])

prop("P22","Builds agree: features and toolchain do not change the language",
 "For one order of operations, whether a text is accepted, and the value computed wherever all operands are finite and no result is NaN, are the same with and without compile-time optimisation and on stable and nightly toolchains. Between the two orders of operations, texts without implicit multiplication are accepted alike and mean the same.",
 ["configurations","inputs"],"all texts and assignments across the eight supported build configurations",
 "Each configuration runs its own fixed expectations; no test compares builds with each other.",
 [PARSER,SIMP,"src/utils/precedence.rs","src/utils/factorial.rs","build.rs"],[("feature and toolchain conditionals","cfg(feature), cfg(NIGHTLY)")],
 ["Parser::parse","Xprs::eval across builds"])

prop("P23","User functions are called exactly as often as the expression says",
 "Without compile-time optimisation, parsing calls no user function, and every evaluation by whatever entry point calls each call written in the expression exactly once, with the values of its written arguments. With it, each written call is made at most once while parsing, and evaluation makes exactly the calls left in the displayed form, once each. Substituting makes each call at most once. An evaluation that fails for a missing variable makes at most the calls that do not need it. Defining, cloning, comparing, displaying and binding call nothing.",
 ["inputs","histories"],"all expressions with user functions, all assignments and sequences of substitutions and evaluations",
 "The tests use pure functions only and look at values, so a call made twice, early, from a cache or not at all goes unnoticed.",
 [XP,SIMP,PARSER,"src/element/function_call.rs","src/token/function.rs"],[("calls while evaluating","src/xprs.rs eval_element"),("calls while folding","src/element/simplify.rs")],
 ["user function side effects","Xprs::eval","Parser::parse"])

prop("P24","Memory use is bounded by the text and all of it is given back",
 "Parsing (whether the text is accepted or rejected), evaluating, simplifying, cloning, comparing, displaying and binding keep no memory once their results are dropped, however often they are repeated and however many different texts are used. An expression, its clones and simplifications occupy memory at most proportional to the length of the text, one evaluation allocates at most in proportion to it, and parsing, simplifying for one name and displaying allocate in total at most in proportion to the square of the length of the text or of the displayed form.",
 ["inputs","histories"],"all texts, accepted or not, all contexts and assignments, and any number of repetitions",
 "The tests look at results only, on short texts; nothing measures what is kept or how the cost grows.",
 [PARSER,XP,SIMP,"src/context.rs"],[("ownership of the tree and of parse errors","src/parser.rs ParseError, src/element"),("in-place replacement of the root","src/xprs.rs"),("repeated simplification of nested elements","src/element/simplify.rs, src/parser.rs element")],
 ["allocator balance and totals around each public operation"])

prop("P25","Functions, symbols, contexts and parsers compare by what they define",
 "Two functions are equal exactly when they have the same name, the same number of arguments and the same implementation (one static function, or one shared closure); two symbols when both are the same number or equal functions; two contexts, and two parsers, when they give equal symbols to the same names and expect the same variables, whatever the history of definitions, replacements and clones that led there. Clones equal their originals (NaN constants aside), and parsers that compare equal give equal results for every text. Symbols and functions order consistently with equality: two values order as equal exactly when they are equal, constants order as numbers and functions by name, reversing the operands reverses the answer, and the order is transitive.",
 ["inputs","histories"],"all pairs and triples of functions, symbols, contexts and parsers, in particular pairs differing in one part only and contexts built by different histories",
 "Two doc examples compare one symbol each; nothing compares contexts, parsers or functions that differ, and ordering is never used.",
 ["src/context.rs","src/token/function.rs","src/parser.rs"],[("equality and ordering of functions","src/token/function.rs Function, FnPointer"),("equality of contexts and parsers","src/context.rs Context, Symbol; src/parser.rs Parser")],
 ["== and partial_cmp of Function, Symbol","== of Context, Parser","Parser::parse"])

out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for p in P:
        assert len(p["title"])<=80,(p["id"],len(p["title"]))
        f.write(json.dumps(p,ensure_ascii=False)+"\n")
print(len(P))
