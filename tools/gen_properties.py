import json
M="pomelo-impl/src/parser/mod.rs"; L="pomelo-impl/src/lib.rs"; D="src/lib.rs"
def P(id,title,statement,over,text,why,files,mech,state=None,observe=None,hook=None):
    assert len(title)<=80,(id,len(title))
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech]))
    if state: d["anchors"]["state"]=[dict(name=n,meaning=m,where=w) for n,m,w in state]
    d["anchors"]["observe_at"]=observe or ["return values of the generated parser's parse/end_of_input","events logged by user action blocks"]
    d["anchors"]["hook_needed"]=hook
    return d
ps=[
P("C01","Generated parsers accept exactly the language of the grammar",
 "For every grammar the macro accepts that uses no precedence, fallback, wildcard or error features, feeding a token sequence and then end-of-input succeeds if and only if that sequence is a sentence of the context-free grammar as written. The answer is reached after finitely many steps, and no token of a sentence is ever reported as a syntax error.",
 ["programs","inputs"],"all conflict-free grammars x all token sequences (members and non-members)",
 "The tests parse about one hand-written sentence for each of some twenty grammars; the guarantee ranges over every grammar shape (empty rules, shared prefixes, merged lookaheads, table packing) and every input, members and non-members.",
 [M,D],[("first sets / LR(0) states / lookahead propagation",M+": find_first_sets, find_states, configlist_closure, find_links, find_follow_sets"),("action table construction and packing",M+": find_actions, compress_tables, ActTab::insert_action_set, generate_source"),("table-driven engine emitted into the user's crate",M+": yy_parse_token_2, yy_find_shift_action_2, yy_find_reduce_action, yy_reduce")],
 [("parser stack","states and values of the symbols recognised so far","generated Parser.yystack")]),
P("C02","Actions replay the derivation bottom-up with the right values",
 "On every successful parse, the grammar's action blocks run exactly once per node of the parse tree, children before parents and left to right, interleaved with the calls that feed the tokens so that each runs no later than the call after its last token. Each alias is bound to the value of the symbol it is written next to, and the value returned at end-of-input is the one produced by the action of the start symbol.",
 ["programs","inputs"],"all accepted grammars, all placements of aliases and typed/untyped symbols, all sentences",
 "Tests check the final value of a few sentences; they do not check which actions ran, in what order, or that each alias position in each rule length/type combination receives its own symbol's value.",
 [M],[("per-rule action code with popped values and alias patterns",M+": translate_code"),("value enum variant numbering",M+": generate_source (dt_num, YYMinorType)"),("goto after reduce and accept",M+": yy_reduce, accept_code")]),
P("C03","Grammars are rejected exactly when a real LALR(1) conflict remains",
 "The macro expands a well-formed grammar to a parser that compiles if its LALR(1) automaton has no conflict left after applying declared precedences and every rule can be used, and otherwise fails the build with an error. In particular an ambiguous grammar without precedences is never silently turned into a parser, and a conflict-free grammar is never refused.",
 ["programs"],"all grammars built from rules, alternatives, empty rules, %start_symbol and precedence declarations",
 "compile-fail has three grammars that touch this (one unreducible rule, one undefined nonterminal, one start on a right-hand side) and no test expects a parsing conflict at all.",
 [M],[("lookahead computation",M+": find_first_sets, configlist_closure, find_links, find_follow_sets"),("conflict classification and counting",M+": find_actions, resolve_conflict"),("conflicts fail the build",M+": build")],observe=["rustc diagnostics of the macro invocation"]),
P("C04","Operator precedence and associativity group as documented",
 "When a choice between shifting a token and reducing a rule is ambiguous, a rule of higher precedence than the token is reduced first, a token of higher precedence is shifted, and at equal precedence left-associative operators group to the left, right-associative ones to the right and non-associative ones are a syntax error. A rule's precedence is that of its bracketed symbol if given, otherwise of its leftmost right-hand-side token that has one; between two reductions the rule of strictly higher precedence wins and anything else is reported as a conflict.",
 ["programs","inputs"],"all operator tables (levels, associativities, prefix/infix/postfix/ternary/juxtaposition operators, [Sym] overrides), together with other features, and all operator expressions",
 "tests/pass/tree.rs covers one table of left-associative binary operators with one prefix operator on five expressions; %nonassoc and %right chains are never executed.",
 [M,D],[("rule precedence selection",M+": find_rule_precedences"),("precedence comparison and conflict resolution",M+": precedence_cmp, resolve_conflict"),("explicit error entries surviving table compression",M+": compress_tables, compute_action, insert_action_set")]),
P("C05","A bad token is detected at once, after a bounded amount of work",
 "For grammars without precedence, fallback or wildcard, a call that feeds a token triggers the syntax-error path if and only if no sentence of the language starts with the tokens accepted so far followed by that token, and end-of-input does so if and only if the tokens accepted so far are not a sentence. Every such call finishes, with the number of actions it runs bounded by the parse already built, and an erroneous token is never shifted.",
 ["programs","inputs"],"all accepted grammars, all prefixes of sentences, every possible next token at every automaton state",
 "Detection of errors depends on every cell of the compressed tables and on default reductions; the tests contain fewer than a dozen erroneous tokens in total.",
 [M],[("default reductions",M+": compress_tables, resort_states (i_dflt)"),("lookahead validation of packed table entries",M+": yy_find_shift_action_2, yy_find_reduce_action, ActTab::insert_action_set")]),
P("C06","The syntax-error handler gets the offending token and the exact expectations",
 "When a syntax error is reported, the handler receives the very token (variant and payload) that could not be accepted (no token for end-of-input), and the list of expected tokens it receives contains exactly the tokens for which the parser has a continuation in the state it is in when the error is detected (default reductions done), each once, each under its own name and, when the variant has no payload, with the corresponding token value. The handler runs with access to the extra argument, and the value it returns decides between failing with that error and recovering.",
 ["programs","inputs"],"all grammars with and without an error symbol, all erroneous tokens at all automaton states",
 "expected_tokens.rs checks one or three names on two grammars where only single tokens are expected.",
 [M,D],[("expected-token iterator",M+": ExpectedTokens::next"),("token reconstruction",M+": token_build, token_value"),("handler invocation",M+": yy_syntax_error, yy_parse_token_2")]),
P("C07","Recovery through the error symbol resynchronises as specified",
 "In a grammar that uses the error nonterminal, after a syntax error the parser discards symbols from the top of its stack only until it can accept the error nonterminal, accepts it with the value returned by the handler, and then skips tokens until one fits, after which parsing continues normally and all work below the discarded part is kept. The syntax-error handler is run exactly once per recovery, just before the error nonterminal is accepted, with the token and expectations of the point where the error was detected. If nothing on the stack can accept it, or input ends in an error, the parse fails through the parse-failure handler.",
 ["programs","inputs","histories"],"all grammars with error productions in any position, all sequences of good and bad tokens, repeated and nested errors",
 "Four tests drive two nearly identical line-oriented grammars with one or two errors each.",
 [M,D],[("stack unwinding and shift of the error symbol",M+": yy_parse_token_2 (YYERRORSYMBOL branch)"),("goto lookup tolerant to missing entries",M+": yy_find_reduce_action")],
 [("error_count","tokens still to shift before a new report","generated Parser.error_count")]),
P("C08","Without an error symbol, bad tokens are dropped and reports throttled",
 "In a grammar without the error nonterminal, a token that cannot be accepted is dropped when the syntax-error handler tolerates it, leaving the parse as if that token had not been supplied (apart from default reductions made before the error was detected); the handler is not run again until three further tokens have been accepted, counting anew from every dropped token. An end-of-input that cannot be accepted always fails the parse through the parse-failure handler.",
 ["programs","inputs","histories"],"all grammars without the error symbol, all interleavings of good and bad tokens",
 "error2.rs drives one grammar with one bad token.",
 [M],[("drop and throttle",M+": yy_parse_token_2 (branch without YYERRORSYMBOL), error_count")]),
P("C09","Failures surface the right error value and are final",
 "When a call fails, the error returned is exactly the value produced by the directive or action that caused it: the failing action, the syntax-error handler, the parse-failure handler or the stack-overflow handler, or the error type's default when that directive is absent. No action or handler runs after the one that produced the error, and a failed parser never yields a successful result afterwards.",
 ["programs","inputs","fault_sequences"],"all grammars, all failing points (any action, any handler), any calls made after the failure",
 "Only two tests return an error from an action or handler and none uses the parser afterwards.",
 [M,D],[("status machine",M+": yy_parse_token, YYStatus"),("handlers",M+": yy_parse_failed, yy_syntax_error, yy_shift (stack overflow)")],
 [("yystatus","normal, failed or accepted","generated Parser.yystatus")]),
P("C10","The extra argument is one state threaded through the whole parse",
 "The extra value given when a parser is created is the one that every action and handler sees and mutates, in the order they run; changes made by the program between calls through the accessor are visible to later actions and vice versa. It is handed back intact, with all accumulated changes, by the accessors at any time (also after a failure) and together with the result at end-of-input.",
 ["programs","inputs","histories"],"all extra types (owned, borrowed, generic, zero-sized), all interleavings of calls and accessor use, success and failure",
 "Tests only read the extra value at the end of a single parse.",
 [M,D],[("extra plumbing",M+": generate_source (impl_parser, new_priv, end_of_input_priv), yy_reduce, handlers")]),
P("C11","The stack limit is exact and custom stacks see only the documented interface",
 "With a stack size of N the parser's stack never holds more than N entries and the overflow handler runs, with the token being accepted if there is one, precisely when one more entry would be needed; with size 0 there is no limit and the handler never runs. A custom stack type is driven only through the documented operations in last-in-first-out order, and the parse result does not depend on which conforming stack type or sufficient size is used.",
 ["programs","inputs","configurations"],"all grammars, stack sizes from minimal to unlimited, input depths around the limit, default and custom stack types",
 "stack.rs checks one grammar with one size, and only that the handler runs at some point with the right token.",
 [M,D],[("bounded push",M+": yy_shift, YYSTACKLIMIT"),("stack type substitution",M+": generate_source (YYStack)")]),
P("C12","Fallback replaces a token only when it cannot be parsed as itself",
 "A token with a declared fallback is treated as itself wherever the grammar can continue with it, and otherwise as its fallback (following chains), carrying its payload along; only if neither can continue is it a syntax error. Declaring fallbacks does not change the result of any input that was already accepted without them.",
 ["programs","inputs"],"all grammars with fallback declarations (single, multiple, chained, typed), all token sequences",
 "fallback.rs and fallback2.rs run one sentence each; the second exists because table compression once broke this in a case nobody had sampled.",
 [M,D],[("runtime fallback lookup",M+": yy_find_shift_action_2, YY_FALLBACK"),("compression guard for fallback lookaheads",M+": compress_tables (ignored_actions)")]),
P("C13","The wildcard matches any token that cannot be parsed otherwise",
 "Where the grammar can continue with the wildcard, any token that the grammar cannot continue with as itself or as its fallback is accepted in its place; where it can continue with the token itself, the parse is the same as if the wildcard alternative did not apply. End-of-input never matches the wildcard.",
 ["programs","inputs"],"all grammars with a wildcard in any position, all token sequences",
 "wildcard.rs runs a single three-token sentence.",
 [M,D],[("runtime wildcard lookup",M+": yy_find_shift_action_2, YYWILDCARD"),("no default reduction where the wildcard can be shifted",M+": compress_tables (uses_wildcard)")]),
P("C14","Token alternatives and token classes behave as the expanded rules",
 "A rule that uses alternatives of tokens, or a declared token class, accepts the same inputs and produces the same values as the set of rules obtained by writing one copy per member token, whatever the order of the declarations. An alias on it is bound to the payload of the member that was actually supplied.",
 ["programs","inputs"],"all grammars with alternatives/classes (members with equal or different types, overlapping classes, as optional, with precedence), all inputs",
 "token_class.rs and token_alt.rs each run one sentence.",
 [M,D],[("multi-terminal symbols",M+": parse_one_decl (TokenClass, Rule), symbol_new, build_shifts, configlist_closure, find_first_sets"),("types of members",M+": generate_source, translate_code")]),
P("C15","Optional symbols behave as present-or-absent expansions",
 "A symbol marked optional in a rule accepts exactly the inputs with and without that symbol, and its alias is Some of the symbol's value when it was present and None when it was absent, for terminals, nonterminals, token classes and untyped symbols alike. Using the same optional symbol in several places keeps the occurrences independent.",
 ["programs","inputs"],"all grammars with optional symbols in any position and number, typed by any means, all inputs",
 "optional.rs tests a single optional nonterminal at one position.",
 [M,D],[("synthesised optional nonterminal and its two rules",M+": parse_one_decl (Rule, optional_tokens), prepare")]),
P("C16","Declared types determine payloads end to end",
 "The token enumeration has one variant per terminal carrying precisely its declared type (or the default type, combined with the common token data if declared), a rule without code forwards its only typed symbol's value when the types agree, and every payload supplied reaches the alias of its symbol, or the accessors for the common token data, unchanged.",
 ["programs","configurations","inputs"],"all combinations of symbol types, %default_type, %extra_token, attributes, custom token/parser declarations and rules without code",
 "default_type.rs, auto_rule.rs and extra_token.rs each exercise one directive alone on one input.",
 [M,D],[("type resolution",M+": prepare, normalize_rules, generate_source"),("token enum and accessors",M+": generate_source (yytoken, token_matches, token_builds, token_extra)")]),
P("C17","Every macro input yields a parser or a located compile error",
 "Whatever tokens are given to the macro, expansion terminates without crashing and either produces a module or reports a compile error; specifications that violate the documented rules (duplicate or ill-kinded declarations, undefined or unusable symbols and rules, cyclic fallbacks, mismatched types of aliased alternatives) are always reported, at the position of the offending declaration. A specification that the documentation allows is never refused and its expansion always compiles.",
 ["programs","inputs"],"all token streams, in particular single-fault mutations of valid specifications",
 "The compile-fail tests list some thirty fixed invalid inputs.",
 [L,M],[("declaration parser",L+": impl Parse for Decl"),("semantic validation",M+": parse_one_decl, normalize_rules, find_states, find_actions, generate_source, translate_code")],observe=["rustc diagnostics (message, line, column) of the macro invocation","exit status and CPU use of rustc"]),
P("C18","Parsers do not depend on declaration order, names or the build",
 "Reordering directives (keeping precedence declarations in order) and rules (keeping the start symbol), renaming symbols, aliases or the module consistently, or adding the verbose directive does not change which inputs are accepted, where the first error is detected, or which actions run on accepted inputs. Expanding the same specification again, in the same or another compiler process, gives a parser with identical behaviour, including expected-token lists and the actions run before an error.",
 ["programs","inputs","configurations"],"all specifications x all permutations/renamings of them x repeated builds",
 "Every test compiles one fixed text of its grammar once.",
 [M],[("symbol and rule numbering",M+": prepare, symbol_new, create_rule"),("iteration over hash maps while generating",M+": prepare (optional_tokens), generate_source (types)")]),
P("C19","Parser instances are independent, also across threads",
 "Any number of parsers, of the same or different grammars, can be alive at once and be fed in any interleaving or on any threads, including being moved between threads in mid-parse; each behaves exactly as if it ran alone. No execution has a data race.",
 ["schedules","histories"],"all interleavings and thread placements of concurrent parses",
 "No test has two live parsers or a second thread.",
 [M,D],[("no shared mutable state: tables are immutable statics and all state is in the parser value",M+": generate_source")]),
P("C20","Behaviour is independent of grammar and input size",
 "The guarantees on accepted language, actions and errors hold unchanged as the number of symbols, rules, states, right-hand-side symbols or table entries grows past any internal integer-width threshold, and as inputs become long or deeply nested. No grammar fails to compile merely because of its size or of the numbering of its symbols.",
 ["programs","configurations","inputs"],"grammar families swept across 8-bit, signed 8-bit and 16-bit boundaries of symbol, state, rule and table-offset counts; inputs up to large lengths and depths",
 "All test grammars have fewer than twenty symbols.",
 [M],[("width selection",M+": minimum_signed_type, minimum_unsigned_type"),("offset tables and use-default sentinels",M+": generate_source (YY_SHIFT_OFST, YY_REDUCE_OFST)")]),
P("C21","With a fixed-capacity stack the parser is no_std and never allocates",
 "A parser generated with a custom, allocation-free stack type compiles in a crate without the standard library, and creating it, feeding it tokens, reporting errors, enumerating expected tokens, recovering and finishing perform no heap allocation of their own.",
 ["programs","inputs","configurations"],"all grammars with a fixed-capacity stack, all inputs including erroneous ones",
 "stack.rs uses a heap-backed custom stack in a std crate; nothing observes allocations or no_std.",
 [M,D],[("generated paths and stack use",M+": generate_source")],observe=["a counting global allocator in the driver process","compilation of a #![no_std] crate"]),
P("C22","Every value is owned once and released on time",
 "Between calls, the parser holds exactly the values of the symbols on its current parse: each token payload or action result is handed to exactly one consumer (an alias, a handler, the final result) or dropped as soon as its symbol is consumed, discarded or fails. Once the parser has been consumed or dropped nothing it was given is retained, and nothing is dropped twice.",
 ["programs","inputs","histories"],"all grammars and token histories including errors, recovery, overflow, failing actions and early drop",
 "No test uses values with observable destruction.",
 [M],[("values move through popped stack entries",M+": translate_code, yy_shift, yy_parse_token_2"),("stack cleared on accept and parse failure",M+": accept_code, yy_parse_failed")],observe=["constructor/destructor log of instrumented payload types","Miri leak and undefined-behaviour checks"]),
P("C23","Generic parsers behave like their concrete instances",
 "A grammar whose token or parser declaration has lifetime, type or const parameters, with bounds or where-clauses, behaves for every instantiation exactly as the same grammar written with the concrete types substituted. Several instantiations can be used side by side, and borrowed payloads come back with the same address.",
 ["programs","inputs","configurations"],"all placements of generic parameters on tokens, parser, payload, result, error and extra types; several instantiations per grammar; all inputs",
 "generics.rs and two doc examples run one input per instantiation.",
 [M,D],[("generics propagated to every generated item",M+": generate_source (split_for_impl)")]),
P("C24","Traits derived on the parser work and clones are independent",
 "A specification that derives Clone, Debug, PartialEq or the like on the parser with `%parser` compiles whenever the payload, extra argument and stack types have those traits. A clone taken between any two calls owns its own copies of all the values held, and from then on parser and clone each answer the same calls with the same actions, handlers, values, errors and drops, however their calls interleave. Cloning, formatting and comparing run no action and change nothing.",
 ["programs","inputs","histories"],"all grammars, payload and stack types; clones, and clones of clones, at every point of every input, before and after failures, continued in any order",
 "No test derives a trait on the parser.",
 [M,D],[("private types of the parser's fields derive the same traits",M+": generate_source (derived_traits)")]),
P("C25","Printed automata and conflict reports tell the truth",
 "What `%verbose` prints, and the report that comes with the error when conflicts remain, list exactly the states of the grammar's LALR(1) automaton: each state once, with its items and transitions, and for every token the actions possible there, which one is taken, and which ones precedence drops. A token is marked as a parsing conflict in exactly those states where the documented rules leave a conflict; the shift, or the rule that appears first, is then shown as taken. Without `%verbose` an accepted grammar prints nothing.",
 ["programs"],"all grammars, with and without conflicts, precedence, alternatives, classes, optional and error symbols",
 "No test reads the dump or the report.",
 [M,D],[("printed automaton",M+": report_output"),("actions marked as taken, dropped or conflicting",M+": resolve_conflict, find_actions"),("when a report is printed",M+": build")]),
P("C26","Parsers do not depend on the crate or the build around them",
 "A specification that compiles in one edition (2018 or later) compiles in all, without compiler warnings caused by the generated code and without unsafe code, so also under `#![deny(warnings)]` and `#![forbid(unsafe_code)]`. The parser makes exactly the same observations at every optimisation level, with and without overflow checks and debug assertions.",
 ["programs","inputs","configurations"],"all grammars and inputs; editions 2018, 2021 and 2024; debug and optimised builds",
 "The tests are built in one edition and without optimisation.",
 [M],[("the generated module and its lint levels",M+": generate_source")]),
]
with open("/verif/properties.jsonl","w") as f:
    for p in ps: f.write(json.dumps(p)+"\n")
import jsonschema
s=json.load(open("/root/.vp/PROPERTIES.schema.json"))
for p in ps: jsonschema.validate(p,s)
for p in ps:
    n=p["statement"].count(". ")+1
    if n>3: print(p["id"],n)
