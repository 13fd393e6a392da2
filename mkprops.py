"""Generates properties.jsonl (kept so that the statements can be edited readably)."""
import json
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=["src/reparsec/" + f for f in files],
            state=state or [],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=observe or ["Parser.parse(...)", "ParseResult.unwrap(...)"],
            hook_needed=None)))

G = "all parsers built from the public combinators, all inputs"
prop("C01", "Recovery mode is transparent on valid input",
 "If a parser accepts an input with error recovery disabled, then parsing the same input with recovery enabled succeeds as well: unwrap() and unwrap(recover=True) both return an equal value and no error is reported. This holds for every parser, every input and every max_insertions >= 0.",
 ["inputs", "programs", "configurations"], G + ", every insertion limit >= 0",
 "Every combinator has two independently written implementations (strict and recovering); the tests compare them on a few dozen grammar/input pairs, never for an arbitrary grammar.",
 ["core/combinators.py", "core/layout.py", "core/sequence.py", "core/scannerless.py", "core/primitive.py", "parser.py"],
 [("strict and recovering function of every combinator", "src/reparsec/core/combinators.py"), ("Parser.parse", "src/reparsec/parser.py"), ("ResultWrapper.unwrap", "src/reparsec/types.py")])
prop("C02", "Recovery mode never hides an error",
 "If a parser rejects an input with recovery disabled, then with recovery enabled (unless parsing itself raises the documented RuntimeError of a repeated parser that consumes nothing) unwrap() raises ParseError with at least one error item; a value can only be obtained by unwrap(recover=True). If unwrap(recover=True) returns a value, every item of the error raised by unwrap() names the skip or insertion that was applied; otherwise both calls raise ParseError.",
 ["inputs", "programs", "configurations"], G + ", every insertion limit >= 0",
 "The tests look at the recovered value or at the error list of selected inputs; that no grammar/input combination silently turns a rejected input into an accepted one is a statement about all of them.",
 ["core/combinators.py", "core/recovery.py", "core/repair.py", "core/sequence.py", "core/scannerless.py", "types.py"],
 [("continue_parse, join_repairs", "src/reparsec/core/recovery.py"), ("make_insert, make_skip, make_user_insert, make_pending_skip", "src/reparsec/core/repair.py"), ("ResultWrapper.unwrap", "src/reparsec/types.py")])
prop("C03", "First error is the same with and without recovery",
 "For parsers built without attempt, the first error reported with recovery enabled has the same location and the same expected list as the single error reported with recovery disabled, whether or not a repair was found.",
 ["inputs", "programs"], "all attempt-free parsers, all rejected inputs, all path-independent location functions",
 "The existing tests check expected lists of first errors for a handful of inputs; the two modes compute expected lists on different code paths (operation lists versus error objects).",
 ["core/combinators.py", "core/result.py", "core/recovery.py", "core/repair.py", "core/chain.py", "types.py"],
 [("prepend_expected / set_expected of the three result kinds", "src/reparsec/core/result.py"), ("ops_prepend_expected, ops_set_expected", "src/reparsec/core/repair.py"), ("recover_with, recover_with_fn, alt in recovery mode", "src/reparsec/core/combinators.py")])
prop("C04", "Ordered choice commits on consumption",
 "With recovery disabled, p | q has exactly the outcome of p if p succeeds or fails after consuming input; otherwise it has the outcome of q applied at the same position in the same context. It fails without consuming exactly if both do, and is then reported at the location of p's failure.",
 ["inputs", "programs"], "all parsers p, q and all inputs and positions",
 "Commitment depends on the consumed flag that every sub-parser must compute and forward correctly; tests sample some combinations.",
 ["core/combinators.py", "parser.py"],
 [("alt", "src/reparsec/core/combinators.py"), ("Parser.__or__, alt", "src/reparsec/parser.py")])
prop("C05", "Sequencing threads position, context and values",
 "With recovery disabled, a sequence (+, <<, >>, seql, seqr, between, then, bind) applies its second parser exactly where and in the context in which the first ended, fails with the first failure, and counts as having consumed input exactly if one of the executed parts did. Its value is the documented combination (pair, left, right, inner value, flat tuple of up to eight values in order, result of the parser returned by the bind function), and fmap/apply apply the function to exactly that value.",
 ["inputs", "programs"], "all parsers, functions and inputs; tuples of every supported arity",
 "Tests cover a few concrete sequences; threading must hold for every pair of parsers and arity.",
 ["core/combinators.py", "parser.py"],
 [("seq, seql, seqr, bind, fmap, tuple3..tuple8", "src/reparsec/core/combinators.py"), ("Parser.__add__/__lshift__/__rshift__/bind/fmap, between, TupleN.then/apply", "src/reparsec/parser.py")])
prop("C06", "Repetition and operator chains collect everything in order",
 "With recovery disabled, many returns the values of all successive applications in order, stops at the first failure that consumed nothing, and fails if an application fails after consuming; sep_by returns all item values in order, [] if there is none. chainl1/chainr1 combine the operands with the parsed operators left-/right-associatively for any number of operands.",
 ["inputs", "programs"], "all item/separator/operator parsers, inputs of any length",
 "Tests repeat at most a few times; the statement is about any number of iterations.",
 ["core/combinators.py", "parser.py"],
 [("many loop", "src/reparsec/core/combinators.py"), ("sep_by, chainl1 reducer, chainr1 reducer", "src/reparsec/parser.py")])
prop("C07", "maybe, attempt and label change only what they promise",
 "maybe(p) behaves like p | Pure(None). attempt(p) has p's outcome except that a failure counts as not having consumed input - with recovery enabled, too, when p cannot be repaired, so that recover_with applies to it. label(p) never changes acceptance, value, end position or error location, only the expected list of outcomes that consumed nothing.",
 ["inputs", "programs"], "all parsers p, inputs, positions, both modes",
 "These are equivalences between parsers, quantified over all parsers.",
 ["core/combinators.py", "parser.py"],
 [("maybe, attempt, label", "src/reparsec/core/combinators.py"), ("set_expected", "src/reparsec/core/result.py")])
prop("C08", "Expected lists are exactly what could have continued",
 "With recovery disabled, the expected list of a failure consists, in order and without loss, of the expectations of everything that was tried at the failure point after the last consumed input: both branches of a choice, optional or repeated parts that matched nothing followed by what comes after them; a consumed part contributes nothing. label replaces the list of an outcome that consumed nothing by the single label and leaves others alone.",
 ["inputs", "programs"], "all parsers and rejected inputs",
 "Expected lists are accumulated through mutable result objects along every path; tests check a few error messages.",
 ["core/chain.py", "core/result.py", "core/combinators.py"],
 [("Append", "src/reparsec/core/chain.py"), ("Ok/Error.prepend_expected, set_expected", "src/reparsec/core/result.py"), ("alt, maybe, many, label", "src/reparsec/core/combinators.py")])
prop("C09", "Parsing always progresses and stays inside the input",
 "A success or repair never ends before its start nor past the end of the input, and counts as having consumed input exactly if a success advanced the position. Hence repetitions and resynchronisation scans terminate on every finite input, and repeating a parser that succeeds without consuming raises RuntimeError instead of looping.",
 ["inputs", "programs"], G + "; every loop iteration",
 "Termination and bounds are statements about all inputs and iterations.",
 ["core/combinators.py", "core/sequence.py", "core/scannerless.py", "core/recovery.py", "core/repair.py"],
 [("many loop and its recovery continuation", "src/reparsec/core/combinators.py"), ("skip loops", "src/reparsec/core/sequence.py, src/reparsec/core/scannerless.py")])
prop("C10", "Insertions are bounded by max_insertions",
 "With recovery enabled and max_insertions = n, no error list of a repaired parse contains more than n insertions (automatic or from recover_with) at the same input position; with n = 0 nothing is ever inserted.",
 ["inputs", "programs", "configurations"], G + ", every n >= 0, default location function",
 "The budget is threaded through every combinator and reset on consumption; no existing test varies max_insertions.",
 ["core/recovery.py", "core/repair.py", "core/combinators.py", "core/sequence.py", "core/scannerless.py", "parser.py"],
 [("ins/rem parameters of every recovering parse function", "src/reparsec/core/combinators.py"), ("continue_parse budget", "src/reparsec/core/recovery.py")])
prop("C11", "The cheapest repair is chosen and reported truthfully",
 "With recovery enabled, unwrap(recover=True) returns the value of, and unwrap() reports the operations of, one and the same repair. Its cost is the number of its insertions plus the number of skipped input elements as listed in the report, and no repair found is cheaper; ties go to the repair ending furthest, then to one not starting with an automatic insertion, then to the first found.",
 ["inputs", "programs"], G,
 "Optimality is a statement about all repairs of all inputs.",
 ["types.py", "core/repair.py", "core/recovery.py"],
 [("ResultWrapper.unwrap", "src/reparsec/types.py"), ("Repair.cost", "src/reparsec/core/repair.py"), ("cost sums and operation lists in continue_parse", "src/reparsec/core/recovery.py")])
prop("C12", "Line and column tracking of strings is exact",
 "Every location reported by reparsec.scannerless.parse, with or without recovery, is the exact location of an input position: line is the number of newlines before it and col its distance from the start of its line, regardless of the path on which the parser reached it. Locations are rendered as line:col, both 1-based.",
 ["inputs", "programs"], "all parsers, all strings, all sequences of incremental location updates",
 "Locations are updated incrementally along the parse; tests use a few short inputs.",
 ["core/scannerless.py", "core/types.py", "scannerless.py", "core/layout.py"],
 [("get_loc", "src/reparsec/core/scannerless.py"), ("Ctx.get_loc, Ctx.update_loc", "src/reparsec/core/types.py"), ("parse", "src/reparsec/scannerless.py")])
prop("C13", "The lexer tiles its input with exact locations",
 "split_tokens always terminates: it repeatedly matches the specification exactly where the previous match ended until the whole input is covered, returning in order one token per match that has a named last group (its kind, its text and the exact locations of the match's two ends) and dropping other matches. If nothing (or only the empty string) matches at some position it raises LexError with the exact location of that position, which its message shows as line:col (1-based).",
 ["inputs", "configurations"], "all strings and all compiled token specifications",
 "Tests run two fixed specifications on a few inputs.",
 ["lexer.py"],
 [("iter_tokens, split_tokens", "src/reparsec/lexer.py")],
 ["split_tokens(...)", "Token.start / Token.end", "LexError.loc"])
prop("C14", "Token streams are located at their tokens",
 "In reparsec.lexer.parse the location of input position i is the start of token i, or the end of the last token at the end of the input. Every reported error location and every layout decision (block, aligned, indented) on a token stream uses the location of the position it concerns, never one of another token.",
 ["inputs", "programs"], "all parsers and all token lists",
 "Token index and character offset coincide in tiny inputs only; no existing test combines lexer and layout.",
 ["lexer.py", "core/types.py", "core/layout.py"],
 [("_loc_from_stream, parse", "src/reparsec/lexer.py"), ("Ctx.update_loc", "src/reparsec/core/types.py")])
prop("C15", "Layout combinators test and scope the column mark",
 "A parse starts with reference column 0. block(p) runs p with the reference column set to the current column; aligned(p) runs p exactly if the current column equals the reference column, indented(d, p) exactly if it equals the reference column plus d, with the reference column set to the current column inside; otherwise they fail without consuming, reporting 'indentation' at the current location. When a block or indented part ends, successfully or repaired, the surrounding reference column is in force again, and no other parser ever changes it.",
 ["inputs", "programs"], "all parsers, inputs, nesting structures, both modes",
 "Nesting depth and recovery inside layout are unbounded; five tests exist.",
 ["core/layout.py", "core/types.py", "core/result.py", "layout.py", "parser.py"],
 [("block, aligned, indented", "src/reparsec/core/layout.py"), ("Ctx.set_mark, set_ctx of the result kinds", "src/reparsec/core/types.py, src/reparsec/core/result.py")])
prop("C16", "A forward-declared parser is its definition",
 "A Delay behaves exactly like the parser it was defined with, in both modes, no matter whether it was combined with other parsers before or after define. Parsing with it before define, or defining it twice, raises RuntimeError and a second define leaves the first definition in force.",
 ["histories", "programs", "inputs"], "all orders of building, define and parse calls",
 "Tests use the one order build, define, parse.",
 ["parser.py"],
 [("Delay.define, parse_fast_fn, parse_fn, to_fns", "src/reparsec/parser.py")])
prop("C17", "Parsing has no side effects on parsers, inputs or results",
 "Parsing and unwrapping modify nothing that existed before the call - not the parser, the input, or earlier results - and nothing that the library later modifies in one result or repair is shared with another; lists that the library builds as values (repetitions) are new in every parse. So the same parser applied to the same input gives the same outcome however often and in whatever order parsers are used.",
 ["histories", "inputs", "programs"], "all sequences of parse/unwrap/fmap calls",
 "Results are updated in place (expected lists, operation lists, priorities); whether updates can leak between repairs, calls or results is a question about all histories.",
 ["core/result.py", "core/recovery.py", "core/repair.py", "core/combinators.py", "types.py"],
 [("in-place set_expected/prepend_expected/set_ctx", "src/reparsec/core/result.py"), ("_join_ops copies operation items", "src/reparsec/core/recovery.py"), ("recover sets priorities in place", "src/reparsec/core/combinators.py")])
prop("C18", "Only documented exceptions escape",
 "Apart from exceptions raised by user-supplied callables, parsing any input with any parser, with or without recovery, raises nothing but the RuntimeErrors for repeating a non-consuming parser and for an undefined Delay; unwrap raises nothing but ParseError, whose message can always be rendered; split_tokens raises nothing but LexError.",
 ["inputs", "programs"], G,
 "Absence of internal errors (wrong attribute, index out of range, wrong arity) quantifies over all paths.",
 ["core/combinators.py", "core/recovery.py", "core/result.py", "core/sequence.py", "core/scannerless.py", "core/layout.py", "types.py", "lexer.py", "parser.py"],
 [("all parse functions", "src/reparsec/core"), ("ResultWrapper.unwrap, ErrorItem.msg", "src/reparsec/types.py")])
prop("C19", "Parsing resumes after a repair exactly like a sequence",
 "When the first part of a sequence, bind or repetition had to be repaired, the rest is parsed from the end position, context and remaining insertion budget of each of its repairs. Each combined repair has the combined value, the summed cost, the first part's operations followed by the rest's, the end state of the rest and the priority class of the first part, and its later errors list expectations as a sequence would; a repair is dropped only if the rest fails irreparably after it.",
 ["inputs", "programs"], "all parsers and inputs with recovery enabled, any number of repairs",
 "Tests observe the final winner only, on short inputs.",
 ["core/recovery.py", "core/combinators.py", "core/repair.py"],
 [("continue_parse, _join_ops, _append_expected", "src/reparsec/core/recovery.py"), ("seq, bind, many in recovery mode", "src/reparsec/core/combinators.py")])
prop("C20", "Which repairs compete is decided as documented",
 "A choice is repaired only if both alternatives fail without consuming; then all repairs of the first alternative compete, and repairs of the second that start with an automatic insertion compete only if the first alternative fails irreparably or they are marked by recover(). recover() changes nothing else, optional and repeated parts are never repaired at their start, and recover_with/recover_with_fn offer their value, as an insertion under the given label or the value's repr, ahead of the parser's own repairs exactly when the parser fails without consuming, recovery is allowed there and the insertion budget is not used up.",
 ["inputs", "programs", "configurations"], "all parsers and inputs with recovery enabled",
 "Tests observe the final winner only, on short inputs.",
 ["core/recovery.py", "core/combinators.py", "core/repair.py"],
 [("join_repairs", "src/reparsec/core/recovery.py"), ("alt, maybe, many, recover, recover_with, recover_with_fn", "src/reparsec/core/combinators.py")])
prop("C21", "Primitive parsers accept and resynchronise exactly",
 "sym, satisfy, literal, regexp, eof, Pure, PureFn, unexpected, letter and digit (characters for which isalpha / isdigit holds), token and token_ins succeed exactly on the documented inputs with the documented value and end position, and otherwise fail at the current position with the documented expectation. With recovery enabled the only repairs they offer are: inserting their symbol (sym, literal, token_ins) while budget remains, skipping to the nearest later position before the end of input at which they accept (eof: skipping the whole rest), with the count of skipped elements reported.",
 ["inputs"], "all inputs, positions and parameters",
 "Tests sample short inputs; 'nearest later position' quantifies over the whole rest of the input.",
 ["core/sequence.py", "core/scannerless.py", "core/primitive.py", "sequence.py", "scannerless.py", "primitive.py", "lexer.py"],
 [("satisfy, sym, eof", "src/reparsec/core/sequence.py"), ("literal, regexp", "src/reparsec/core/scannerless.py"), ("Pure, PureFn, unexpected", "src/reparsec/core/primitive.py"), ("token, token_ins", "src/reparsec/lexer.py")])
prop("C22", "Results map and render faithfully",
 "fmap on a ParseResult applies the function to the value that unwrap would return, in every case, and changes nothing about the errors, nor the result it is called on. Each error message consists of the rendered location, the complete expected list in order ('unexpected input' if empty, otherwise joined by commas and a final 'or') and the repair (number of skipped tokens or inserted label) if any; a ParseError's message is its items' messages in order.",
 ["inputs", "programs"], "all results, functions and error lists",
 "Doctests show a few messages.",
 ["types.py", "core/result.py"],
 [("ResultWrapper.fmap, unwrap; ErrorItem.msg; ParseError.__str__", "src/reparsec/types.py")],
 ["ParseResult.fmap(...).unwrap(...)", "str(ParseError)", "ErrorItem.msg"])
prop("C23", "Tokens, locations and reports are values",
 "Two tokens are equal exactly if their kinds and values are equal, wherever they were found in the source, so that a token built by hand (the locations may be left out) can be compared with, and used as a symbol to look for in, a lexed stream; a token or a location is hashable, equal ones hash equally, and it cannot be changed. Two locations, two repair operations and two error items are equal exactly if they are of the same class and have equal content. The constructors of all of these keep what they are given; so do ParseError and LexError, of which copies and pickles have the same content.",
 ["inputs"], "all contents",
 "Tests compare a few tokens and error lists; that a difference in one field (or in a location) does or does not count is a statement about all of them.",
 ["lexer.py", "types.py", "core/types.py", "core/repair.py"],
 [("Token", "src/reparsec/lexer.py"), ("ErrorItem", "src/reparsec/types.py"), ("Loc", "src/reparsec/core/types.py"), ("Skip, Insert", "src/reparsec/core/repair.py"), ("ParseError, LexError", "src/reparsec/types.py, src/reparsec/lexer.py")],
 ["==, !=, hash() of Token, Loc, Skip, Insert, ErrorItem", "copies and pickles of ParseError, LexError"])
with open("/verif/properties.jsonl", "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
