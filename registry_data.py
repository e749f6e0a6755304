STATIC = ("Decided by static analysis of the type-checked program (MIR with resolved callees) on every run; exact for the "
          "construct it names, not a proof of the surrounding behaviour. Trusts rustc's MIR and the call graph built from it. ")

prop("C01", "Core IR passes visit every sub-expression, branch, type and definition",
     "Every pass over a core program (the verifier, the printer, each evaluator's compilation or interpretation, free-variable "
     "and use counting, renaming copies, and the optimizer's walks and type substitutions) reaches every sub-expression of every "
     "expression, every branch of every match, every element of every argument list and every type stored in it, in every "
     "definition of the program. No kind of expression has a part that one of the passes skips.",
     ["programs"], "all core programs, all expression kinds and argument list lengths, all passes",
     "the tests run a few hundred small programs; a pass that skips a child is only noticed when a program puts something "
     "relevant (a binder, a capture, a type variable) into exactly that child of exactly that node",
     ["ticc-core/src/ir.rs", "ticc-core/src/verify.rs", "ticc-core/src/pretty.rs", "ticc-eval/src/compile.rs",
      "ticc-eval/src/lambda.rs", "ticc-eval/src/treewalk.rs", "ticc/src/codegen/opt.rs", "ticc/src/codegen/opt/inline.rs",
      "ticc/src/codegen/opt/inline_simple.rs", "ticc/src/codegen/opt/reduce_pi.rs", "ticc/src/codegen/opt/saturate.rs"],
     [("Expr/Ty variants", "ticc-core/src/ir.rs"), ("walk_expressions*", "ticc/src/codegen/opt.rs"),
      ("check_expr", "ticc-core/src/verify.rs"), ("free_variables", "ticc-eval/src/compile.rs")],
     "field-sensitive dataflow from each child field to the recursive call, plus must-pass-through paths",
     STATIC + "Says that each child is handed to the pass, not what the pass does with it.")

prop("C02", "Resolver, type checker and code generator descend into every part of an item",
     "When an item is compiled, every sub-expression of every expression is name-resolved, type-checked and translated, and every "
     "type written in it (annotations, constructor fields, type arguments) is resolved, however the parts are nested. The only "
     "parts that may be left out are those of a construct that has another part missing, which is itself a syntax error.",
     ["programs", "inputs"], "all source files, all syntax node kinds, all nesting and list lengths",
     "a part that is not visited accepts ill-typed or unresolved code there; each test exercises only a few nestings",
     ["ticc/src/compiler/resolve.rs", "ticc/src/compiler/typeck.rs", "ticc/src/codegen/gen_core.rs",
      "ticc/src/compiler/syntax/node.rs"],
     [("resolve_expr/resolve_type", "ticc/src/compiler/resolve.rs"), ("check_expr", "ticc/src/compiler/typeck.rs"),
      ("gen_expr", "ticc/src/codegen/gen_core.rs"), ("node accessors", "ticc/src/compiler/syntax/node.rs")],
     "per-variant must-visit path analysis over syntax accessors",
     STATIC + "Says that each child node is handed to the function for its kind, not what that function decides.")

prop("C03", "The evaluators compute every primitive operation identically",
     "The treewalk, lambda and bytecode evaluators give the same result for every integer, comparison and string primitive on all "
     "operands: 64-bit wrapping unsigned arithmetic, x / 0 = 0, x % 0 = x, unsigned comparisons, string length, concatenation, "
     "charAt (0 when out of range), substring (clamped to the string), fromChar (the low byte of the code) and intToString. Operands are "
     "evaluated left to right, exactly once, each in its own position, and a primitive never crashes the evaluator.",
     ["inputs"], "all primitives, all operand values, all three evaluators",
     "the boundary values (zero divisors, out-of-range indices, huge lengths, wrap-around) are not in the test programs of every "
     "evaluator, and the operand space is 2^64 per operand",
     ["ticc-eval/src/treewalk.rs", "ticc-eval/src/lambda.rs", "ticc-eval/src/bytecode.rs"],
     [("eval_expr", "ticc-eval/src/treewalk.rs"), ("compile_op/compile_intrinsic", "ticc-eval/src/lambda.rs"),
      ("instruction dispatch", "ticc-eval/src/bytecode.rs")],
     "path-sensitive dataflow (trace partitioning) of each primitive to a normal form compared with the specification table",
     STATIC + "The value computed on each path is compared as a normalised expression over the operands; library functions used "
     "(wrapping_add, slicing, formatting) are modelled by their documentation. Memory for huge strings is not considered.")

prop("C04", "Source constructs mean what they denote, from token to core term and bytecode",
     "Every source construct is translated to the core construct it denotes: each operator token (with its spelling, left "
     "associative, comparison < additive < multiplicative, `|>` loosest) to its own core operation on left and right operand in "
     "that order; application, let, if, match (the branch's own constructor, variables and body), literals (the number's value, "
     "the string's text without quotes), plain and fold lambdas (recursion on exactly the recursive fields), holes to traps. A name "
     "refers to the core name its binder introduced. Each builtin function is its primitive on its parameters in order. Each core "
     "operation prints as it is spelled and compiles to its own bytecode instruction.",
     ["programs"], "all source programs, every expression form and operator in every context",
     "the tests evaluate a sample of operator combinations and forms; a wrong precedence pair, a swapped role or a wrong constructor "
     "choice needs a program with exactly that combination",
     ["ticc/src/compiler/lexer.rs", "ticc/src/compiler/parser/expr.rs", "ticc/src/codegen/gen_core.rs", "ticc/src/builtin.rs",
      "ticc-core/src/pretty.rs", "ticc-eval/src/compile.rs", "ticc-eval/src/bytecode.rs"],
     [("gen_expr, gen_value_item", "ticc/src/codegen/gen_core.rs"), ("binding_power, op_expr", "ticc/src/compiler/parser/expr.rs"),
      ("get_intrinsic_symbols", "ticc/src/builtin.rs"), ("write_expr", "ticc-core/src/pretty.rs"),
      ("compile_expr", "ticc-eval/src/compile.rs"), ("link", "ticc-eval/src/bytecode.rs")],
     "path-sensitive value flow with helpers entered; the term returned per form is matched against the specified term",
     STATIC + "Terms are over the parts syntax accessors return; that the parser puts the right token into each part, and the standard "
     "library's own tic sources, are not covered.")

prop("C11", "Type checking enforces the typing rule of every source construct",
     "An expression is accepted only if it obeys its construct's typing rule: an application's function takes its argument's type "
     "and returns the expression's; arithmetic and comparison take ints and give int / bool; `|>` applies its right operand to its "
     "left; a condition is bool and both branches have the type of the `if`; a let's value has its declared type; a lambda has the "
     "type of its parameter and body (a fold lambda takes the folded type); every match branch names a constructor of the matched "
     "type, binds as many variables as it has fields, each of that field's instantiated type (recursive fields the folded "
     "result), and has the match's type; a polymorphic name is used at a fresh instance of its declared type. A mismatch is always "
     "reported and leaves no partial solution; two types unify only if they are structurally equal; a variable never becomes part "
     "of itself; a definition's value is checked against its declared type, or an undeclared one against the type inferred for it, "
     "and no part of the type other items see of it is left undetermined.",
     ["programs"], "all source programs, every form of expression and every pair of types",
     "each test checks one or two mismatches; a rule that forgets one equation accepts ill-typed programs that are then miscompiled",
     ["ticc/src/compiler/typeck.rs"],
     [("TypeChecker::check_expr, instantiate_name", "ticc/src/compiler/typeck.rs"), ("Unifier::unify, occurs, to_ir", "ticc/src/compiler/typeck.rs")],
     "type equations generated on every path, reconstructed by value flow, compared with the typing rule by unification",
     STATIC + "The types given to names by the resolver are taken as they are; that the rules are a sound type system is not proved.")

prop("C25", "Each editor request is answered once, from its file, as announced",
     "The language server answers every request exactly once under its own id: by the handler of its method, whose answer it sends, or, "
     "if there is none, with an error; messages are read until the client shuts the server down. What it announces is answered. The "
     "answer to a request about a place is what the compiler says about that position of that file: the definition, all references, "
     "with the declaration exactly if it was asked for, the text and extent of a name, all completions, the tokens; nothing where the "
     "compiler has nothing or the file is not open. Places are given in the coordinates of the file. All diagnostics are given, with "
     "their severity, message and place.",
     ["histories"], "all sequences of messages from an editor",
     "the messages and the documents they are about are arbitrary; the tests of the repository never start the server",
     ["ticc-lsp/src/main.rs", "ticc-lsp/src/handlers.rs", "ticc-lsp/src/hover.rs", "ticc-lsp/src/completions.rs", "ticc-lsp/src/diagnostics.rs"],
     [("Handlers::handle_request", "ticc-lsp/src/main.rs"), ("server_capabilities", "ticc-lsp/src/main.rs"),
      ("handlers", "ticc-lsp/src/handlers.rs"), ("get_diagnostics", "ticc-lsp/src/diagnostics.rs")],
     "path-sensitive value flow through every registered handler, the dispatch and the announced capabilities; each path's answer is a term "
     "that is compared with the compiler's answer about the position asked for",
     STATIC + "What the compiler answers is C18, C19 and C14; how positions are converted is C23.")

prop("C28", "Every name refers to its innermost enclosing binder, or is reported as an error",
     "A name in a source file refers to the innermost enclosing binding of that name in its namespace (values, types, "
     "constructors, modules): a lambda's parameter is visible in its body only, a let's name in its rest but not in its own value, "
     "a match case's variables in that case's body only, a type's parameters in its cases, the type variables of an annotation in "
     "the annotated value only, and an item's definitions in the items after it. `m.x` refers to what module m exports as x in the "
     "namespace the use needs; exposing a name brings in every namespace it is exported in. Each use that finds a binding is "
     "recorded as referring to it; one that finds none (undefined name or module, not exported, wrong namespace) is reported.",
     ["programs", "inputs"], "all source files, all nestings of binders and all names",
     "shadowing, leaking and namespace confusion need particular combinations of equal names in nested binders, of which tests "
     "hold only a few; a wrong reference silently compiles to a different program",
     ["ticc/src/compiler.rs", "ticc/src/compiler/resolve.rs"],
     [("Scope::add_item, lookup_*", "ticc/src/compiler.rs"), ("resolve_expr, resolve_match_case, resolve_type*, resolve_*_item",
      "ticc/src/compiler/resolve.rs")],
     "path-sensitive value flow over scopes: the entries visible at each lookup and recursive call, compared with the scoping rule",
     STATIC + "The order in which two same-named variables of one binder group take precedence is the order of insertion. What "
     "a module exports is taken from its export table.")

prop("C12", "The syntax trees hold exactly the text",
     "An item is the text up to the end of the line of its last token, or up to the end of the text if no token is left, and an item "
     "is only asked for where there are tokens. Its tree has exactly the nodes that the rules of the grammar made - started and "
     "completed, or put around a node that was complete - with their kinds and no two with the same number; its leaves, in order, are "
     "the tokens and the trivia of the text, of the kinds that the lexer gave, at their places; a node extends from its first token to "
     "its last. The first error of an item is always reported. Cursors give the children and descendants of a node in order, and the "
     "text of its extent.",
     ["inputs"], "all texts, and all ways to start, complete and precede nodes around their tokens",
     "positions of diagnostics, hover and formatting are all read from the tree; tests round-trip three texts",
     ["ticc/src/compiler/parser.rs", "ticc-syntax/src/lib.rs", "ticc-syntax/src/cursor.rs"],
     [("parse_one_item", "ticc/src/compiler/parser.rs"), ("events_to_node", "ticc/src/compiler/parser.rs"), ("SyntaxBuilder", "ticc-syntax/src/lib.rs")],
     "value flow through the parser's events and the tree builder, over every forest of nodes around up to three tokens and every arrangement "
     "of trivia between them; the trees that come out are compared with the steps that went in",
     STATIC + "Lists are walked for the lengths that are named. What the lexer gives is C23 and the grammar C31.")

prop("C14", "A module exports exactly what it marks as exported, and importers know its types",
     "When a module has been compiled, what it exports is exactly its definitions marked export, each under its own name and in "
     "exactly the namespaces of its kind: values as values, constructors as values and as patterns, types as types, modules as "
     "modules. Looking up a name in a module gives the definition exported under that name in the namespace asked for, or an error "
     "that tells a name exported in other namespaces from one not exported at all. Every item is checked with knowledge of all "
     "definitions of the modules imported before it, including modules those import, exported or not.",
     ["programs", "inputs"], "all modules, all definitions and import graphs",
     "what leaks or is lost depends on combinations of kind, visibility and import depth, of which the tests have a few",
     ["ticc/src/import.rs", "ticc/src/lib.rs", "ticc/src/compiler.rs"],
     [("collect_exports, collect_types", "ticc/src/import.rs"), ("CompilationUnit::complete, find_export", "ticc/src/lib.rs"),
      ("DefSet::add_item", "ticc/src/compiler.rs")],
     "path-sensitive value flow into the tables, one run per kind and visibility, compared with the specified entries",
     STATIC + "That a definition is marked exported exactly when its item says so is not part of this property.")

prop("C31", "The parser accepts exactly the grammar and builds its trees, and always ends",
     "A text is parsed without an error exactly if it is a sequence of items of the grammar (let, type and import items; let, match, "
     "if, lambda, operator, application and atomic expressions; function, named and atomic types, each with its optional and repeated "
     "parts), and the tree that is built has the nodes of the grammar: left-nested applications, type cases with their fields, names "
     "in their places. Parsing any other text ends with an error, without a panic, with every node completed, each item consuming "
     "at least one token. What the accessors of a node give is the child that the grammar puts in that place: a let's value is the "
     "expression after the equals sign, an if's branches those after then and else, and so on, whatever the kinds of the children "
     "and whichever optional parts are present.",
     ["inputs"], "all sequences of tokens",
     "the tests hold a few dozen programs; the forms of the grammar combine optional parts, repetitions and what may follow, and "
     "texts that are nearly right are unbounded",
     ["ticc/src/compiler/parser.rs", "ticc/src/compiler/parser/expr.rs", "ticc/src/compiler/parser/item.rs",
      "ticc/src/compiler/parser/type_.rs", "ticc/src/compiler/syntax/node.rs", "ticc/src/compiler/syntax.rs"],
     [("expr, op_expr, atom_expr", "ticc/src/compiler/parser/expr.rs"), ("item", "ticc/src/compiler/parser/item.rs"),
      ("type_, atom_type", "ticc/src/compiler/parser/type_.rs"), ("accessors of the nodes", "ticc/src/compiler/syntax/node.rs")],
     "path-sensitive abstract interpretation of the rules over sets of token kinds, one rule at a time; the languages and trees of all "
     "paths are compared with a grammar in both directions; accessors are evaluated on every form of their node",
     STATIC + "Repetitions are walked for two rounds. Rules are found by their names. How tight operators bind is C04; what error is "
     "reported, and how parsing goes on after one, is not specified. How tokens are cut from the text is not part of this property.")

prop("C20", "Evaluation runs what was asked for and shows its values unambiguously",
     "Evaluating a unit runs its program once, with the runner asked for, on exactly its exported definitions in their order, and gives a "
     "line `name = value` for each, or the trap. Values are shown with their constructor, its fields in order, parentheses exactly around "
     "fields that are functions or constructors with fields; numbers in full; strings in quotes such that different strings are never "
     "shown in the same way. Running main applies the last definition exported as main to the given bytes, if its type is string -> "
     "string, and gives the bytes of its result; otherwise an error says that there is no main or that it is invalid, without running "
     "anything. The tool does exactly what its options say: only checks, writes the IR, evaluates, or runs main on the file or standard "
     "input, with the runner, stack size, optimization and verification asked for; the output goes to the file asked for, or is printed, "
     "and whatever cannot be read, run or written ends in failure.",
     ["inputs"], "all programs, values and options of the tool",
     "the tests evaluate fixed programs through the library with few shapes of values and one exported main; the tool itself is run "
     "by no test",
     ["ticc/src/interpreter.rs", "ticc/src/main.rs", "ticc/src/lib.rs", "ticc-core/src/ir.rs"],
     [("eval, eval_main, write_value", "ticc/src/interpreter.rs"), ("main", "ticc/src/main.rs"), ("Runner", "ticc/src/lib.rs"),
      ("ByteString", "ticc-core/src/ir.rs")],
     "abstract interpretation over texts made of known pieces: evaluation for every arrangement of up to three definitions, the printer "
     "for every form and nesting of values and every byte; path-sensitive analysis of the tool with its options as symbols",
     STATIC + "Programs are taken as given by the translation and the runners as correct: what they compute is not part of this property. "
     "The texts of messages and timing output are not specified. Forms of values are nested two deep, the rest follows by the recursion "
     "of the printer.")

prop("C09", "Every item is checked once, in order, knowing exactly the items before it",
     "However a unit is compiled (at once or in steps, up to a position or to its end), each item is parsed from the text after the "
     "previous one, then name-resolved, checked for number literals, kinds, types and matches, each exactly once, kinds before types "
     "before matches; each check knows the definitions of all earlier items in their final form (with the types cleaned and inferred "
     "by the checks) and of no later one, and the item's own as left by the checks before it. Everything that reports on a unit "
     "(diagnostics, tokens, lints, navigation, info, completions, code generation, evaluation) has compiled it first, to its end "
     "unless it answers for a position.",
     ["histories", "programs"], "all source files, all orders and positions of requests",
     "tests compile each file once to its end; leftovers of incremental compilation or a skipped check show only for particular "
     "request orders and items",
     ["ticc/src/lib.rs", "ticc/src/codegen.rs", "ticc/src/lint/unused.rs", "ticc/src/api/info.rs", "ticc/src/api/errors.rs",
      "ticc/src/api/navigation.rs", "ticc/src/api/completion.rs", "ticc/src/api/tokens.rs"],
     [("CompilationUnit::compile_up_to, compile_to_end", "ticc/src/lib.rs"), ("diagnostics", "ticc/src/api/errors.rs"),
      ("emit_core", "ticc/src/codegen.rs")],
     "path-sensitive value flow with opaque stages (versions of the item and of the known definitions) and must-pass-through paths",
     STATIC + "What each stage does with the item is the subject of other properties.")

prop("C10", "Numbers, type arguments and matches are checked wherever they occur",
     "Every number literal anywhere in an item that does not denote an unsigned 64 bit number is reported, and no other is. Every "
     "named type anywhere in an item that takes another number of arguments than it is given is reported, and no other is; such a "
     "type is replaced by the error type at every depth of every signature before types are compared, so that it causes no further "
     "errors. For every match anywhere in an item whose scrutinee has a known type: a type without constructors (through a fold as "
     "well) is reported, a constructor used by an earlier branch is reported at the later branch, and the match is reported exactly "
     "when some constructor of the type has no branch.",
     ["programs", "inputs"], "all source files, all nestings, all numbers of constructors and branches",
     "an unchecked place compiles to a crash at run time, and needs a particular nesting, order or arity to show",
     ["ticc/src/compiler/numck.rs", "ticc/src/compiler/kindck.rs", "ticc/src/compiler/matchck.rs"],
     [("check_numbers", "ticc/src/compiler/numck.rs"), ("kind_check, check_ty, report_type", "ticc/src/compiler/kindck.rs"),
      ("check_matches", "ticc/src/compiler/matchck.rs")],
     "path-sensitive value flow over a generic node, with two branches on the same constructor for repetition; each path's "
     "verdict compared with its reports",
     STATIC + "A match is not judged when one of its branches lacks a constructor or names an unknown one (that is reported by "
     "other checks). The types given to scrutinees are those of the type checker.")

prop("C19", "Go to definition, find references and hover answer for the name at the position",
     "A request at a position is about the reference whose extent holds it (both ends included), else about the definition with a "
     "name of its own whose extent holds it. Go to definition gives the extent of the definition of that symbol, or nothing when it "
     "is not in this unit. Find references gives the extents of exactly the references to that symbol: for a local definition those "
     "in its item, for any other those in the whole unit, compiled to its end. Hover gives the extent of the name with the type of "
     "its definition (a value's type, a constructor's function type, a type's kind); without a name (or for a module) the "
     "innermost expression that holds the position with the type recorded for it.",
     ["inputs", "histories"], "all source files, all positions, all states of incremental compilation",
     "off-by-one extents, lost references and a wrong definition show only at particular positions of particular names",
     ["ticc/src/api.rs", "ticc/src/api/navigation.rs", "ticc/src/api/info.rs"],
     [("find_definition, find_references", "ticc/src/api/navigation.rs"), ("info_at", "ticc/src/api/info.rs"),
      ("find_ref_at, find_def_at, find_def", "ticc/src/api.rs")],
     "path-sensitive value flow through the queries with helpers entered; each path's answer compared with what the facts of the path "
     "decide about references, definitions and positions",
     STATIC + "The references, definitions and types recorded for the items are the subject of C28 and others.")

prop("C18", "Completion offers the names a name at the position could refer to",
     "A completion request resolves the item whose extent holds the position, with an identifier put in at the position, in the scope "
     "of exactly the items before it. For a name without a module it offers every module name and every name visible there, from "
     "the innermost binder to the top level, of the kind expected: types in types, constructors in patterns, values (constructors "
     "included) in expressions. For a name in a module it offers exactly what the module exports as that kind, and nothing when the "
     "module is unknown. Names that differ are all kept.",
     ["inputs", "programs"], "all source files and positions, all nestings of binders and imports",
     "what is offered depends on the kind of name, the binders around it and the module's exports; tests sample some fifteen positions",
     ["ticc/src/api/completion.rs", "ticc/src/compiler/resolve.rs"],
     [("completions_at, Resolver::on_name, add_exports", "ticc/src/api/completion.rs"), ("on_name calls", "ticc/src/compiler/resolve.rs")],
     "path-sensitive value flow: every use the resolver looks up announces the table it is looked up in, and the sink's answer is "
     "compared with that table on every path",
     STATIC + "What a scope's tables hold is C28. The exposed names of an import are not completed by the tool and not part of this.")

prop("C08", "All diagnostics are reported; a program with errors is not translated or run",
     "Diagnostics of a unit are exactly one for each problem recorded for each of its items, compiled to its end, and one for each "
     "lint, with the extent, severity and complete message (every segment) recorded. The tool prints every diagnostic with its "
     "severity, extent and message against its file; when one of them is an error, in the file or in one it imports, it ends in "
     "failure; it translates, runs or writes anything only after it compiled the file, printed all diagnostics and knows that none "
     "is an error and that no imported file has one.",
     ["programs", "inputs"], "all source files with any number and order of errors and warnings, all modes of the tool",
     "a lost diagnostic or a skipped test shows only for particular combinations of errors, warnings and modes; no test runs the tool",
     ["ticc/src/api/errors.rs", "ticc/src/main.rs", "ticc/src/lint.rs"],
     [("diagnostics, format_message", "ticc/src/api/errors.rs"), ("main, print_diagnostics", "ticc/src/main.rs")],
     "path-sensitive value flow through the query, the printer and main of the tool (with paths that exit), with events for what is "
     "computed, printed and run; facts about all diagnostics only where the sequence was exhausted",
     STATIC + "Which errors of imported files are remembered is C17; what the stages report is the subject of others.")

prop("C22", "Optimising a program does not change what it computes",
     "A pass of the optimizer over a program, and the optimizer as a whole, give a program that is as valid as the one before (every name "
     "bound once and in scope, every expression of the type it had) and computes the same: each exported definition is still there under its "
     "name, and with whatever arguments it is used it takes the same decisions, gives the same result, and calls nothing unknown, divides "
     "by nothing and fails nowhere it did not before; a function it takes is called no more often than before. No pass fails.",
     ["programs", "inputs"], "all programs and all values of what they take",
     "the tests compare optimized and plain runs of a few programs with particular inputs; a rewrite that captures a name, swaps arguments, "
     "moves work over a branch or drops a branch shows only in a program with exactly that shape, in that context",
     ["ticc/src/codegen/opt.rs", "ticc/src/codegen/opt/inline.rs", "ticc/src/codegen/opt/inline_simple.rs", "ticc/src/codegen/opt/move_match.rs"],
     [("optimize and the passes it runs", "ticc/src/codegen/opt.rs"), ("optimize of each pass", "ticc/src/codegen/opt/")],
     "value flow of each pass and of the whole optimizer (MIR of this tree) over a catalogue of core programs: every shape the passes rewrite, "
     "in each context an expression may stand in; the program that comes out is checked for scope and types and compared with the one before "
     "by symbolic call-by-value evaluation over unknown arguments",
     STATIC + "Decided for the programs of the catalogue (about 600 in the quick run, all 2,900 with VERIF_TIER=thorough) and every value of their "
     "arguments; not a proof for all programs. Passes rewrite expressions node by node, so what is looked at is each rewrite in each "
     "context. Different programs are taken to have different hashes.")

prop("C26", "Printed programs, types and messages read back as what they are",
     "The text printed for a core program has, by the grammar of printed programs, that program as its only reading: the same definitions in "
     "their order under their names and exported names, with the same types, operators on the same operands, arguments, bindings and branches in "
     "their order, texts and numbers of the same value. The text shown in a message for a type has that type as its reading: arrows to the right, "
     "an applied type as an argument and a function as what is taken in parentheses, definitions by their names. A message is its parts in their "
     "order, each in full.",
     ["programs", "inputs"], "all core programs, all types, all messages",
     "the tests compare the printed form of a few programs; parentheses that are missing, or a wrong text, show only where one particular "
     "construct stands in a particular place of another",
     ["ticc-core/src/pretty.rs", "formatter/src/lib.rs", "ticc/src/api.rs", "ticc/src/api/errors.rs"],
     [("pretty_print", "ticc-core/src/pretty.rs"), ("FormatBuilder", "formatter/src/lib.rs"), ("print_type", "ticc/src/api.rs"),
      ("format_message", "ticc/src/api/errors.rs")],
     "value flow of the printer, the layout and the message texts (MIR of this tree) over every construct in every place of every other; the text "
     "that comes out is read by an independent grammar and compared",
     STATIC + "Decided for every construct in every place of every construct, and a third level of the ones in question (all with "
     "VERIF_TIER=thorough): what the printer writes for a construct depends on it, on the kinds of its parts and on the one precedence it is "
     "given, so deeper programs bring nothing new; this last step is an argument, not checked. Types of other modules are shown as `???`.")

prop("C23", "Places and tokens in the editor are those of the text, in UTF-16 units",
     "A place in a file is shown to the editor as its line and the number of UTF-16 code units from the start of that line; a line starts "
     "at the start of the file and after every line feed. A place the editor asks about is the character at that line and column; past "
     "the end of a line it is the end of that line, past the last line the end of the file. Ranges go from the place of their start to "
     "that of their end. The token list has every token of the file once, in order, each by its line and column relative to the token "
     "before, its length in UTF-16 units and the number of its kind's name in the announced legend.",
     ["programs", "inputs"], "all texts, with all characters, and all places in them",
     "texts with characters outside of the basic plane, empty lines and tables extended half-way combine; tests have one text of two lines",
     ["ticc-lsp/src/utils.rs", "ticc-lsp/src/semantic_tokens.rs", "ticc-lsp/src/main.rs"],
     [("LocationTranslator::line_index", "ticc-lsp/src/utils.rs"), ("ToLsp for Pos", "ticc-lsp/src/utils.rs"),
      ("ToTicc for Position", "ticc-lsp/src/utils.rs"), ("get_semantic_tokens", "ticc-lsp/src/semantic_tokens.rs")],
     "path-sensitive value flow; offsets, columns and table bounds are compared as linear terms, loops are followed for two characters and two tokens",
     STATIC + "Which kind the compiler gives a token is no part of this.")

prop("C24", "Exactly the unused definitions are reported as unused",
     "A definition of a unit is used when some item of the unit refers to its symbol, when it is exported, when it is a type "
     "variable, or when it is a type one of whose constructors is used. A warning at the extent of its name that names it is given "
     "for exactly the definitions that are not used, are no modules, and do not have a name that begins with an underscore.",
     ["programs"], "all source files with any number and order of items, references, imports and constructors",
     "whether a definition is used depends on the references of all items; tests sample a few small files",
     ["ticc/src/lint.rs", "ticc/src/lint/unused.rs"], [("lints", "ticc/src/lint/unused.rs")],
     "path-sensitive value flow with the tables' inserts, look-ups and their order as events, over a generic item, reference and definition",
     STATIC + "Which references are recorded is C28.")

prop("C29", "The verifier lets through well-formed core programs and stops at every other",
     "Verifying a core program, alone or with further values of given types, ends normally for a well-formed one and panics for every other: "
     "every name and type variable is bound once, by a number that was generated, and used only in its scope (type definitions in order; a "
     "definition after itself; a let's name in its body, a recursive one's in its value too; parameters and bindings in their body or branch); "
     "named types have as many arguments as parameters; calls, primitives, constructors and patterns have as many parts as they take, of the "
     "types they take, for the type arguments they are given; conditions are bools, branches of one type, and values have the type they are "
     "declared with, up to the names of quantified variables.",
     ["programs"], "all core programs",
     "tests only ever verify programs the compiler makes, which are well-formed: a verifier that stopped checking something would pass them all, "
     "and the faults of later changes to the compiler would go through to the evaluators",
     ["ticc-core/src/verify.rs"],
     [("assert_valid, assert_valid_with_values", "ticc-core/src/verify.rs")],
     "value flow of the verifier (MIR of this tree) over a catalogue of well-formed programs with every construct and over every program one change "
     "away from them; whether the verifier ends in a panic compared with an independent checker of the rules",
     STATIC + "Decided for the catalogue (about 1,560 sound programs and 16,300 faulty ones: every part replaced, dropped, doubled, swapped or "
     "renamed). That a match has a branch for every constructor and that type arguments are in scope is not what this verifier looks at; branches "
     "whose types differ only in the names of quantified variables are left out.")

prop("C30", "The interpreters compute what a core program denotes",
     "The treewalk and lambda evaluators give, for a well-formed core program and expressions over its definitions, the value of each "
     "expression in order: definitions are evaluated once, in order; evaluation is call by value with static scope (a function keeps what was "
     "bound where it was made, a recursive one also itself); operands, arguments, fields and bindings are taken from left to right, each in its own "
     "position; only the branch that is chosen is evaluated; what a constructor made is taken apart in the order it was put together; types have no "
     "effect. Where evaluation fails it ends with the message of the first failure, and where it does not the evaluator does not crash.",
     ["programs", "inputs"], "all core programs, all values of their numbers and bools, both evaluators",
     "tests run a handful of programs whose functions have one or two arguments and few captured names; which captured names, frames and arities "
     "meet in a program is not bounded",
     ["ticc-eval/src/treewalk.rs", "ticc-eval/src/lambda.rs", "ticc-eval/src/tagged.rs", "ticc-eval/src/lib.rs"],
     [("eval, eval_impl, make_rec_fn", "ticc-eval/src/treewalk.rs"), ("eval, compile_expr, EnvResolver, CompactEnv, free_names", "ticc-eval/src/lambda.rs")],
     "value flow of each evaluator (MIR of this tree: closures, trait objects, environments) over a catalogue of core programs with unknown numbers, all "
     "ways their bools may be; the value on each path compared with a denotational evaluator of this analysis",
     STATIC + "Decided for the catalogue (about 860 programs, 5,500 paths), not for all programs. What the operators and primitives give is taken from "
     "the evaluator itself (C03 decides that); constructors of ten or more fields are a recorded defect; the bytecode machine and the JIT run another "
     "representation and are outside. Programs in which both a called function and its argument fail are left out.")

prop("C06", "The bytecode machine computes what a program denotes; its heap loses nothing",
     "The bytecode evaluator gives, for a well-formed core program and expressions over its definitions, the value of each expression in order "
     "(or the message of the failure it ends with), as the program denotes: a call binds each argument to its parameter and gives the caller back what "
     "it had, also where a recursive call takes the place of its caller; a function keeps what it captured; operators take operands in order; a match "
     "goes to its constructor's branch with the fields in order. An allocation always finds room, and collecting garbage changes nothing the program "
     "can see: everything it can still reach (on the stack, text constants, the two bools, and what these lead to) is kept, word for word, at its new "
     "place, with every reference to it, and integers that look like addresses stay as they are.",
     ["programs", "inputs", "histories"], "all core programs, all values of their numbers and bools, all moments the collector runs at",
     "tests run a few programs; whether a value survives depends on when the heap happens to be full and where everything lay by then, and on the depth "
     "of the stack at every place a name is used",
     ["ticc-eval/src/bytecode.rs", "ticc-eval/src/compile.rs", "ticc-eval/src/heap.rs"],
     [("eval, run, link, decode_value, reserve, gc", "ticc-eval/src/bytecode.rs"), ("compile, FunctionCompiler, free_variables", "ticc-eval/src/compile.rs"),
      ("Heap, HeapBytes, Header, AlignedBytes", "ticc-eval/src/heap.rs")],
     "value flow of compiler, linker, machine, heap and collector (MIR of this tree; the memory behind unsafe code as cells laid out as the compiler "
     "lays them out) over a catalogue of core programs with unknown numbers; the value on each path compared with a denotational evaluator of this "
     "analysis",
     STATIC + "Decided for the catalogue (about 650 programs), not for all programs and heaps. What the operators and primitives give is taken from "
     "the evaluator itself (C03 decides that); texts of unknown length are left out; objects of more than 64 fields are a recorded defect; the JIT, whose "
     "code runs outside the program, is not claimed. Programs in which both a called function and its argument fail are left out.")

prop("C16", "The language server compiles and publishes what the editor shows",
     "A file that is open in the editor has the text that was sent last, and any other the text on disk when it was first needed. A "
     "new text gets a later version. After a file was opened or changed, every open file whose text, or that of a module it was "
     "compiled with, has a later version than the one it was compiled from is compiled again, from that text and with a resolver that "
     "knows it; no other is. Each that was compiled again has all its diagnostics published once, under its own address; a closed file "
     "is dropped and its diagnostics are cleared. Modules are compiled with no lock held.",
     ["histories"], "all sequences of opening, changing and closing documents that import each other",
     "the order of edits and the import graph are unbounded; the tests of the repository never start the server",
     ["ticc-lsp/src/main.rs", "ticc-lsp/src/handlers.rs"],
     [("Compilation::refresh", "ticc-lsp/src/main.rs"), ("FileSet::set", "ticc-lsp/src/main.rs"), ("on_file_update", "ticc-lsp/src/handlers.rs"),
      ("on_change", "ticc-lsp/src/handlers.rs")],
     "path-sensitive value flow over the table of files, the refreshing of a compilation and the handlers of the notifications; each path is "
     "judged by which versions it compared and what it stored, compiled and sent",
     STATIC + "Files that change on disk while the server runs are a known finding of another kind (see Findings) and no part of this.")

prop("C17", "An import stands for its module, compiled once; cycles are errors",
     "An import asks the built-in modules for the text between the quotes first and then, only for other names, the resolver. The "
     "resolvers of the tool and of the language server answer a name relative to the importing file: a module that is being compiled "
     "further out is an import cycle; one that was compiled before is the same unit; one that cannot be read is that error; any other "
     "is compiled from its text with a resolver that knows it and all modules being compiled, without holding a lock, and is "
     "remembered. The tool keeps the errors of the first imported file that has any. Each failure is reported once, as an error at "
     "the path, told apart by its message, and defines nothing. A module gives exactly its exported definitions, by their names and "
     "in their namespaces, to those that import it.",
     ["programs", "histories"], "all sets of files and import graphs, with cycles, shared, missing and unreadable modules",
     "cycles, diamonds and unreadable files combine without bound; tests resolve from a table in memory and never use these resolvers",
     ["ticc/src/main.rs", "ticc-lsp/src/main.rs", "ticc/src/compiler/resolve.rs", "ticc/src/import.rs", "ticc/src/lib.rs"],
     [("ChildResolver::lookup", "ticc/src/main.rs"), ("CompilationModuleResolver::lookup", "ticc-lsp/src/main.rs"),
      ("resolve_import_item", "ticc/src/compiler/resolve.rs"), ("collect_exports", "ticc/src/import.rs")],
     "path-sensitive value flow with the table of modules, its locks and what is written behind them as events; the chain of modules "
     "being compiled is followed twice",
     STATIC + "Two paths name the same file when their canonical forms or addresses do. What an exposed name stands for is C28; when "
     "the server compiles again is C16.")

prop("C21", "Types, folds, polymorphism and modules are translated to the program they denote",
     "The translation to core gives, up to the choice of names, exactly what a unit denotes. Each type definition gives the type and its "
     "folded form (one more parameter, in place of the recursive parts), each with the constructors as they are named and their fields in "
     "order, and for each constructor a function from its type parameters and fields, in order, to the value. Each value gives one definition "
     "with its full type, abstracted over its type parameters in order, as is its value and that of a polymorphic let; a use gets the types "
     "it is used at. A fold rebuilds the node it is given with the same constructor, keeps its plain fields and replaces exactly the recursive "
     "ones by their results; a match on a folded value is on the folded constructors. A hole traps with its own text. The modules a unit "
     "imports are translated before it, each once however often and on whatever way it is imported. Exported are exactly the definitions "
     "the unit itself exports, under their own names.",
     ["programs"], "all type definitions, folds, polymorphic definitions and graphs of modules",
     "the tests evaluate programs with few types of at most two parameters and import the standard library; which definitions of which "
     "module are exported, and that a module is emitted once, shows only with several modules",
     ["ticc/src/codegen/gen_core.rs", "ticc-core/src/ir.rs"],
     [("generate_core, emit_module, gen_type_item, gen_value_item, gen_expr, gen_ty", "ticc/src/codegen/gen_core.rs"),
      ("NameGenerator, TyGenerator", "ticc-core/src/ir.rs")],
     "abstract interpretation of the code generator over about a hundred known modules, with nodes as atoms and maps by their known keys; "
     "the resulting program is compared, up to names, with an independent statement of what the module denotes",
     STATIC + "The modules enumerate every arrangement of up to two fields of each kind over up to two type parameters; larger ones follow as "
     "the generator treats every field, constructor and item alike. Items are taken as resolution and type checking leave them.")

prop("C32", "The standard library's functions compute what their names promise",
     "Every function the standard library exports has its published type (or a more general one) and does what its name promises, whatever its arguments hold. std/option and "
     "std/result: map, andThen, flatten, unwrapOr, apply, isSome, isNone, mapErr, ok, err, okOr, join. std/list: map, filter, filterMap, "
     "sum, product, any, all, head, tail, reverse, length, max, min, foldr, foldl, repeat, concat, join, range, zip (to the shorter), flatMap, "
     "flatten, skip and take (whole list when it is shorter); maxBy and minBy give an element that none exceeds; allSome and allOk all "
     "values or the first failure; sortBy a permutation in order. std/string: length, concat, charAt (0 behind the end), substring (what there "
     "is), fromChar, newline, split (one part more than separators), lines (ends at newlines, a return before one dropped, no empty last "
     "line), foldChars, chars, equal, startsWith, trim (spaces, both ends). std/int: iterate, toString, parse (digits only, at least one), "
     "min, max, gcd and lcm for all 64-bit numbers, bitAnd, bitOr and bitXor of all 64 bits. std/array: an array made by new, fromList, "
     "set, mapIdx and truncate has the length and, at every index, the element that these operations give; behind its end there is nothing; "
     "the array an operation is given stays as it was.",
     ["inputs"], "all elements, predicates, functions, orders and texts, for lists, texts and arrays of the catalogue's lengths",
     "the existing tests use about a third of the functions, each on one or two inputs; arrays are not tested at all, and gcd was wrong only "
     "for large numbers",
     ["ticc/src/std/list.tic", "ticc/src/std/string.tic", "ticc/src/std/int.tic", "ticc/src/std/array.tic", "ticc/src/std/option.tic",
      "ticc/src/std/result.tic", "ticc/src/std/intrinsics.tic"],
     [("list.*", "ticc/src/std/list.tic"), ("string.*", "ticc/src/std/string.tic"), ("int.*", "ticc/src/std/int.tic"),
      ("array.*", "ticc/src/std/array.tic"), ("option.*", "ticc/src/std/option.tic"), ("result.*", "ticc/src/std/result.tic")],
     "abstract interpretation of the Tic source of the library: numbers as polynomials over unknowns with ranges, as orders, or as 64 "
     "functions of unknown bits; functions and predicates unknown, each answer on a path of its own; compared with a statement of each function",
     STATIC + "Lists up to 4 elements (sorting: every order of 5), texts of up to 5 unknown characters, arrays up to 130. gcd and lcm "
     "on all small pairs and on the pairs on which, by Lamé's theorem, Euclid's algorithm takes longest. What the compiler makes of the "
     "text is C01, C02, C21, C28, C30.")

na("C05", "The JIT's machine code computes what the program denotes",
   "Running a program with the JIT gives the value, or the failure, that the program denotes: the machine code made for each instruction of the bytecode "
   "does to registers, stack and heap what the instruction means, also around calls back into the runtime and collections.",
   ["programs", "histories"], "every program, every state of registers, stack and heap",
   "tests run a few programs; which registers and stack slots are live when a helper is called or the heap is full depends on the whole program.",
   ["ticc-eval/src/jit.rs"], [("the code it emits", "ticc-eval/src/jit.rs")],
   "the behaviour is that of x86 bytes written to memory at run time and jumped to: it is not in the MIR, and deciding it from the source takes a model of the "
   "assembler and of the machine that no tool here has; running the code would be a test.")
na("C07", "Evaluating a well-typed program ends unless the program itself runs for ever",
   "A program whose recursion is well-founded is evaluated in finitely many steps, within the stack there is: nothing in an evaluator, in the optimizer or in the type "
   "checker loops on its own or nests deeper than the program's own depth.",
   ["programs"], "every program",
   "tests end on the programs they run; a program that is larger or nested deeper than those is not sampled.",
   ["ticc-eval/src/treewalk.rs", "ticc-eval/src/lambda.rs", "ticc/src/codegen/opt", "ticc/src/compiler/parser.rs"],
   [("recursion over expressions", "ticc-eval/src/treewalk.rs"), ("rounds of the optimizer", "ticc/src/codegen/opt.rs")],
   "termination and stack depth are bounded by run-time quantities (size and nesting of the input against the stack of the process; rounds of inlining): no static bound in "
   "reach holds for every program, and deeply nested input does exhaust the stack of the recursive passes. That the parser's own loops consume a token is claimed, in C31.")
na("C13", "A well-typed program never goes wrong, whatever its size and types",
   "If a module compiles without errors, evaluating it never reaches a state the evaluators have no rule for: no value of the wrong kind, no missing name, no match without a branch.",
   ["programs"], "every program accepted by the type checker",
   "tests hold the programs they hold; unsoundness shows in one combination of polymorphism, folds and modules.",
   ["ticc/src/compiler/typeck.rs", "ticc/src/codegen", "ticc-eval/src"], [("type inference", "ticc/src/compiler"), ("translation", "ticc/src/codegen")],
   "soundness of the whole type system is a theorem about the language (progress and preservation by induction over programs), which needs a proof, not an analysis of the source; "
   "the rules it rests on are decided one by one in C11 (typing), C21 (translation), C29 (verifier) and C30 (evaluation).")
