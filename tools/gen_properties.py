#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=observe, hook_needed=None)))

SC, TK, GR, CO, MA = ("tpl/scanner.go", "tpl/token.go", "tpl/grammar.go", "tpl/compiler.go", "tpl/match.go")
IN, UT = "tpl/interpreter/interpreter.go", "tpl/interpreter.util/call.go"
QL, QF, QC, QX = "tpl/qlang/cl/qlang.go", "tpl/qlang/cl/function.go", "tpl/qlang/cl/ctrl.go", "tpl/qlang/cl/class.go"
QE, QS = "tpl/qlang/engine.go", "tpl/qlang/spec/spec.go"
BN, BB, BX = "tpl/qlang/lib/builtin/number.go", "tpl/qlang/lib/builtin/boolean.go", "tpl/qlang/lib/builtin/builtin.go"

prop("C01", "Tokens follow the documented lexical grammar",
  "For every source text and every scan mode, the scanner returns the sequence of tokens (kind, literal text and position) that the Go-like lexical grammar prescribes: longest-match operators including the extra ?, ~ and @, identifiers over Unicode letters and digits, decimal/octal/hex integers, floats, imaginaries, rune, interpreted and raw string literals, //, /* */ and # comments (returned only in comment mode), carriage returns removed from raw strings and from // and /* */ comments. A text that contains a lexical error still yields the tokens of that grammar around the error.",
  ["inputs", "configurations"], "every byte string, under each combination of the ScanComments and InsertSemis modes",
  "The tests scan one fixed grammar text in three modes; they never see most operators, escapes, number forms, non-ASCII text, comments at odd places or malformed input.",
  [SC, TK], [("Scan dispatch and switch2/3/4 longest match", SC), ("scanNumber/scanString/scanRune/scanComment", SC)],
  ["Scanner.Init/Scan", "Matcher.Tokenize"])
prop("C02", "Tokens partition the source text and scanning always ends",
  "For every byte string, scanning ends after at most one token per source byte plus the inserted semicolons and EOF, and EOF is returned from then on at the position of the end of the text. Token positions never go backwards, each token's source text is found at its position (for a token whose text is unaltered, End() is the position just behind that text), and the bytes between two tokens are only white space, a leading byte order mark, and - unless comments are returned - comments.",
  ["inputs", "configurations"], "every byte string under each scan mode",
  "Only one well-formed text is scanned by the tests; progress, termination and coverage must hold for every input, including hostile bytes.",
  [SC, TK], [("next() always advances; default branch 'always make progress'", SC), ("Token.End/TokenLen", SC)],
  ["Token.Pos, Token.End(), Scanner.Scan"])
prop("C03", "Automatic semicolons are inserted exactly where documented",
  "With InsertSemis, a semicolon with literal \"\\n\" appears exactly where a line (or the text) ends - possibly through a comment that runs to or spans the end of the line - right after an identifier, a literal, a closing ), ] or }, ++ or --, and nowhere else. All other tokens are exactly those obtained without InsertSemis, and without InsertSemis no such semicolon ever appears.",
  ["inputs", "configurations"], "every source text, with and without comment tokens",
  "Tests cover one text with newlines after a few token kinds; the rule ranges over every token kind followed by any mix of blanks, comments of three styles, line ends and EOF.",
  [SC], [("insertSemi flag and findLineEnd lookahead", SC)], ["Scanner.Scan"],
  [("insertSemi", "a newline seen now becomes a semicolon", SC)])
prop("C04", "Lexical errors are always detected and located",
  "The scanner reports an error for every ill-formed text (NUL or invalid UTF-8 byte, misplaced byte order mark, unterminated comment, rune, string or raw string, bad escape, malformed rune, bad octal or hex number, character outside the alphabet) and for no well-formed text; the first report carries the line, column and offset of the offending text, and ErrorCount equals the number of reports. Tokenize then fails with a TokenizeError instead of returning tokens behind the error, and Match runs no rule.",
  ["inputs"], "every byte string",
  "No test feeds malformed text at all.",
  [SC, MA], [("Scanner.error, scanEscape, scanRune, next()", SC), ("onError in Matcher.Tokenize", MA)],
  ["ScanErrorHandler calls, ErrorCount, TokenizeError"])
prop("C05", "Positions map to the right line and to the exact source text",
  "For every tokenized text, the line of a token is one plus the number of newlines before it (unless a preceding //line directive at the start of a line renumbers the lines, and renames the file, from the next line on), whatever multi-line tokens or comments precede it and however often the file is rescanned. Source of a run of tokens is exactly the text from its first token up to the token that follows the run (or the end of the text), and re-scanning that text gives the same tokens again.",
  ["inputs", "histories"], "every well-formed text, every contiguous run of its tokens, repeated scans",
  "Tests never check lines, //line directives or Source.",
  [SC, GR], [("AddLine/AddLineInfo bookkeeping", SC), ("Source, FileLine", GR)],
  ["tpl.Source, tpl.FileLine, token.File.Position"])
prop("C06", "Token kinds and token spellings correspond one to one",
  "Every token kind has a distinct spelling and converting a kind to its spelling and back gives the same kind, for built-in kinds and for keywords; an unknown spelling yields ILLEGAL or, in the keyword scanner, a fresh keyword whose kind is stable from then on and differs from every other kind. The token length is the length of the operator for an operator kind and 0 for every other kind value.",
  ["inputs", "histories"], "every kind value and spelling; every sequence of keyword registrations",
  "Tests check the shape of the table and five lookups; not injectivity, unknown values, nor keyword histories.",
  [TK, CO], [("tokens/rtokens tables, TokenLen", TK), ("AutoKwScanner.Ltot/Ttol", CO)],
  ["Token2Lit, Lit2Token, TokenLen, AutoKwScanner.Ltot/Ttol"])
prop("C07", "Exactly the quoted words of a grammar become keywords",
  "In a compiled grammar, an identifier in the matched text is a keyword if and only if the same word is quoted in the grammar: it then matches only that quoted word and never IDENT, and every other identifier (differing by case, prefix, suffix or Unicode form) matches only IDENT. Which words are keywords does not depend on the order in which they appear in the grammar, nor on other compilers or on texts matched earlier.",
  ["programs", "inputs", "histories"], "every grammar, every identifier-like text, every matching history",
  "Only the fixed qlang grammar exercises keywords, through two scripts.",
  [CO], [("AutoKwScanner.Scan keyword map", CO)], ["actions fired by a compiled grammar"])
prop("C08", "Matching implements the documented rule semantics",
  "For every grammar built from the documented operators (token, 1, EOF, *G, +G, ?G, @G, ~G, sequence, |, %, %=, named and forward rules) in which no repeated rule matches the empty text, and every token sequence, matching accepts iff ordered-choice, longest-repetition semantics accept, and consumes exactly the same tokens; @, ~, 1 and EOF consume nothing, and an integer is accepted where a float is asked for. A rule variable matches nothing until it is assigned, and cannot be assigned again; a matcher without a grammar matches nothing. A failure behind ! aborts the whole match with a MatchError instead of trying another alternative.",
  ["programs", "inputs"], "every such grammar over every token sequence",
  "Tests match two fixed expression grammars against one text each.",
  [GR, MA], [("grAnd/grOr/grRepeat*/grList/grPeek/grNot Match", GR), ("Matcher.Match/MatchExactly", MA)],
  ["Grammar.Match, Matcher.Match, Matcher.MatchExactly"])
prop("C09", "Actions fire once per match, in order, with the matched tokens",
  "An action runs exactly once for each time its rule matches, immediately when it has matched and therefore innermost first and in text order, and never when its rule fails; it receives exactly the tokens its rule consumed. The length it can ask for is the exact number of repetitions of *G, +G, ?G, G1 % G2 or G1 %= G2 in that very match, however often and however deeply the same rule is matched again; it is -1 for a rule that is a token, 1, EOF, a lookahead or a reference to another rule. Texts are scanned in the mode and by the scanner given to the compiler.",
  ["programs", "inputs", "histories"], "every grammar with actions, every text, repeated and recursive matches of the same rule",
  "Tests check one action order on one expression; lengths only for nonempty argument lists.",
  [GR], [("grAction.Match", GR), ("len fields of repeat/list rules", GR)], ["arguments seen by tpl.Action callbacks"],
  [("len", "repetition count of the latest match of a repeat or list rule", GR)])
prop("C10", "Transactions bracket every match attempt of their rule",
  "Each attempt to match a transaction's rule that is not aborted by a panic (such as a failure behind !) calls begin exactly once before and end exactly once after it, an aborted one begin only, with the value begin returned and with an error iff the attempt failed; brackets of nested attempts nest properly and enclose exactly the actions run inside the attempt. The transaction itself changes neither what is matched nor the reported failure or length.",
  ["programs", "inputs"], "every grammar with transactions, every text",
  "No test uses a transaction directly; the extractor tests never fail inside one.",
  [GR], [("grTrans.Match", GR)], ["begin/end callbacks of tpl.Transaction"])
prop("C11", "Compiled grammar text means what the grammar language says",
  "Compiling a grammar text yields a matcher that accepts, consumes and marks exactly as the documented notation says: prefix operators bind tighter than % and %= (left associative), then sequence and !, then |, with parentheses overriding, char and quoted operators, keywords, token names, 1, EOF and rule names in any order of definition, including recursive rules and a recursive doc. Each mark is handed to the marker exactly once per occurrence, with its name and the rule it is attached to.",
  ["programs", "inputs"], "every well-formed grammar text, every matched text",
  "Tests compile three fixed grammars.",
  [CO], [("Compiler.Cl and its operator stack", CO)], ["Compiler.Cl, Marker callback, resulting matcher"])
prop("C12", "Ill-formed grammars are rejected and only they",
  "Compiling reports failure (an error or a panic carrying an error or a string) for every grammar text that is not well formed: lexical or syntax error, undefined rule, rule defined twice, missing doc, unknown token or operator, a number other than 1. Every well-formed grammar compiles without error.",
  ["programs"], "every grammar text",
  "No test compiles an ill-formed grammar.",
  [CO], [("Compiler.Cl checks, vars/grammars tables", CO)], ["error or panic of Compiler.Cl"])
prop("C13", "A rule printed as code means the same rule again",
  "For every grammar, printing its rules as grammar text and compiling that text gives a grammar that accepts exactly the same texts and consumes the same tokens (marks are not printed, and ! is a comment on error handling that printing drops). Printing is deterministic and printing the recompiled grammar gives the same text.",
  ["programs", "inputs"], "every grammar built from the documented operators, every text",
  "One test prints codes without looking at them.",
  [GR, CO], [("Marshal methods and their precedence levels", GR)], ["tpl.Code, Matcher.Code"])
prop("C14", "A failed match is reported at the right place",
  "When a text does not match, the error returned or thrown can always be rendered and its first line names the source line of the token at which matching failed (the line of the end of the text if it failed there): the furthest failing alternative decides, a tie or a lookahead is reported at its own start, a failure behind ! at the token that broke the rule, and unconsumed input at its first token. The rendered message names the file, if it was given a name, and quotes the offending source text.",
  ["programs", "inputs"], "every grammar, every non-matching text over several lines",
  "No test looks at a match error.",
  [GR, MA], [("MatchError.Error/calcErrorInfo, grOr furthest failure", GR)], ["MatchError.Error()"])
prop("C15", "Matching does not depend on what was matched before",
  "The outcome of matching a text - acceptance, consumed tokens, actions, error - is the same on a fresh matcher and on one that has already matched, failed, or been aborted by a panic on any other texts; the Init callback runs exactly once before the rules of each match and never when scanning fails. Tokens handed out for one text keep their value when the next is matched, and the host may reuse the buffer a text was in. Evaluating a named rule (EvalSub) on a text, on its bytes or on its tokens gives the same outcome as matching with that rule, and an unknown name or source type is an error.",
  ["histories", "inputs"], "every sequence of matches, failures and aborts on one matcher",
  "Every test uses a matcher once.",
  [MA, CO], [("Matcher.Match/Init, CompileRet.EvalSub", CO)], ["Matcher.Match, CompileRet.EvalSub, Init callback"])
prop("C16", "Independent matchers and engines can run concurrently",
  "Any number of matchers, calculators, extractors and qlang engines, each used by one goroutine, run concurrently without data races, without disturbing each other, and each gives exactly the result it gives when it runs alone.",
  ["schedules", "inputs"], "every interleaving of goroutines that own distinct instances",
  "No test starts a goroutine.",
  [CO, IN, QE, QS, "tpl/extractor/extractor.go"], [("per-instance scanner, stacks and grammar; shared function tables only read", QS)],
  ["results per goroutine; Go race detector reports"])
prop("C17", "Marks call the interpreter's functions with the documented arguments",
  "When a marked rule matches, the function registered for the mark is called once: stack and interpreter functions receive the live stack or interpreter and, as declared, the matched tokens (nil if none), the engine, a context whose tokens, start and end positions delimit the match, the repetition count for capitalised marks, or the first token's text converted to the parameter type; other functions receive the top values of the stack in order and their results are pushed back. A returned error, a panic with an error or string, or a failed conversion aborts the evaluation with a runtime error that names the line of the matched text; the mark _tr, when no function is registered for it, writes the text of the match (up to the next token) and a newline to the standard error stream and does nothing else; unknown marks, and items that are no function, are variadic, have no parameter, or take the stack or interpreter and have more than three parameters or other results than one error, are refused when the interpreter is created. The scan mode and the scanner of the options are used.",
  ["programs", "inputs"], "every function signature, mark and matched text",
  "Tests only run two qlang scripts through the engine.",
  [IN, UT], [("marker/action closure in New", IN), ("ctxValue, GetValue", IN), ("RuntimeError", IN)], ["calls received by a user interpreter"])
prop("C18", "Muting suspends and restores mark execution",
  "At mute depth 0 all marks run, at depth 1 only marks beginning with an underscore, at depth 2 and more none but _mute and _unmute, which change the depth by one; the depth starts at 0 for every evaluation whatever happened in earlier ones. Evaluating saved code inside an evaluation starts unmuted, uses the given interpreter, and afterwards - also after an error or panic - the former depth and interpreter are back in force.",
  ["programs", "histories"], "every nesting of mute marks, nested evaluations and failures",
  "Mute is only exercised indirectly by two qlang scripts that succeed.",
  [IN], [("mute counter, initer, EvalCode save/restore", IN)], ["which registered functions are called"],
  [("mute", "current mute depth", IN)])
prop("C19", "Calls through the value stack convert and check arguments",
  "Calling a Go function through the value stack passes the topmost arity values in order, converts any integer or float32 to float64 where float64 is asked for, accepts nil for interface and pointer parameters, and pushes exactly the function's results once. A wrong argument count, too few values on the stack or any other type mismatch is reported as an error and the function is not called; a wrong argument count given to Call leaves the stack as it was.",
  ["inputs", "programs"], "every function signature (fixed and variadic), arity and stack content",
  "No test calls this layer.",
  [UT], [("Call, DoCall, VCall, validateType", UT)], ["interpreter.Call/VCall/DoCall with a recording stack"])
prop("C20", "Numeric literals have their exact value",
  "Every integer literal (decimal, octal, hexadecimal) and float literal the scanner accepts is converted to the exact integer or the correctly rounded float64 it denotes, in ParseInt, ParseFloat, GetValue and hence in calculators and qlang; a literal that does not fit, or is incomplete, is an error and never a different number.",
  ["inputs"], "every numeric literal",
  "Tests try seven small literals.",
  [IN, "tpl/cmplx/cmplx.go"], [("ParseInt, ParseFloat, GetValue", IN), ("PushImag", "tpl/cmplx/cmplx.go")], ["ParseInt, ParseFloat, GetValue, calculator and qlang results"])
prop("C21", "The float64 calculator computes the expression's value",
  "For every well-formed expression the number calculator returns the value obtained by evaluating it in float64 with the usual precedence and left associativity, unary + and -, parentheses, named constants and calls of any function of its table with arguments in order. Ill-formed expressions, unknown names and wrong argument counts are errors.",
  ["inputs"], "every expression of the calculator language",
  "No test runs a calculator.",
  ["tpl/number/number.go", IN, UT], [("Grammar, Fntable, Stack", "tpl/number/number.go")], ["Engine.Eval and Calculator.Ret"])
prop("C22", "The complex calculator computes the expression's value",
  "For every well-formed expression the cmplx calculator returns the complex128 value obtained with the usual precedence, associativity, imaginary literals and calls of any function of its table with arguments in order. Ill-formed expressions, unknown names, wrong argument counts and non-real arguments of rect and complex are errors.",
  ["inputs"], "every expression of the calculator language",
  "No test runs a calculator.",
  ["tpl/cmplx/cmplx.go", IN, UT], [("Grammar, Fntable, Stack", "tpl/cmplx/cmplx.go")], ["Engine.Eval and Calculator.Ret"])
prop("C23", "The rational calculator is exact",
  "For every well-formed expression over decimal integers of any size the rat calculator returns the exact rational value, with the usual precedence and associativity and its functions; computing a value never alters another value or the result of an earlier evaluation. Division by zero and ill-formed expressions are errors.",
  ["inputs", "histories"], "every expression, every sequence of evaluations on one calculator",
  "No test runs a calculator.",
  ["tpl/rat/big.go", IN, UT], [("Grammar, Fntable, Stack of *big.Rat", "tpl/rat/big.go")], ["Engine.Eval and Calculator.Ret"])
prop("C24", "A calculator session survives any input line",
  "In a calculator session (library calculators and the three example programs), every line gives exactly one result or one error, in order; after any erroneous line the following lines give exactly the result they give in a fresh session, and no line terminates the session.",
  ["histories", "inputs"], "every sequence of good and bad lines",
  "No test evaluates two expressions on one engine.",
  ["tpl/number/number.go", "tpl/cmplx/cmplx.go", "tpl/rat/big.go", "tpl/examples/calculator/main.go", "tpl/examples/cmplxcalc/cmplx_calc.go", "tpl/examples/ratcalc/bigcalc.go"],
  [("Ret clears the stack; Match resets mute", IN)], ["stdout/stderr of the example programs, Eval/Ret results"])
prop("C25", "Extraction builds the document the marks describe",
  "For every grammar with leaf and node marks and every matching text, the extracted document holds at each node exactly the leaves and child nodes matched inside it, under their tag, with the value of the declared type (or of the caller's GetValue); array marks collect all their items of that node in text order without loss or duplication, also when marks with other tags match in between. A bad value or unsupported type is an error. The scan mode and the scanner of the options are used.",
  ["programs", "inputs"], "every extraction grammar and text",
  "Two tests extract one flat list each.",
  ["tpl/extractor/extractor.go", "tpl/extractor/document.go"], [("marker in New, Node.insertLeaf/insertNode/toMap", "tpl/extractor/document.go")], ["Engine.Parse/SafeParse/Extract/Result"])
prop("C26", "A node that fails to match leaves no trace",
  "When a rule marked as a node fails, everything it had added is gone and its siblings and ancestors are as before the attempt, however deep the nesting; the next alternative continues in the enclosing node. Every parse starts from an empty document, also after failed or aborted parses on the same extractor, and a failed parse returns no document.",
  ["programs", "inputs", "histories"], "every backtracking grammar and text, every sequence of parses",
  "The tests contain no node mark and no backtracking.",
  ["tpl/extractor/extractor.go"], [("Transaction with saved list head", "tpl/extractor/extractor.go")], ["Engine.SafeParse results"])
prop("C27", "tplconv writes exactly the extracted document",
  "For every input file whose extension has a grammar, tplconv writes the JSON of exactly the document the extractor returns, to standard output or to the file with the extra extension, one document per input file in order. With -o and the name of an .html or .htm template it writes what that template of the output folder makes of the document instead. On an unknown input or output format, a bad or missing template, a bad grammar, a non-matching input or an output it cannot write it prints an error and exits with a non-zero status.",
  ["inputs", "configurations"], "every set of grammars, input files and options",
  "tplconv has no test.",
  ["tpl/cmd/tplconv/tplconv.go"], [("processFile", "tpl/cmd/tplconv/tplconv.go")], ["stdout, output files, exit status of tplconv"])
prop("C28", "Generated static compilers equal the dynamic compiler",
  "For every well-formed grammar whose rule names are usable as Go variable names, tplgen writes Go code that compiles against this module, and the matcher it builds accepts, consumes and marks exactly as the one compiled at run time from the same grammar, wherever the package declares the grammar's string and whatever it declares besides, including operators, keywords, repetition, lists, lookahead, 1, EOF and the scan mode. A grammar the run-time compiler rejects is refused by the generator, too.",
  ["programs", "inputs"], "every grammar, every matched text",
  "One generated file for one grammar is checked in; the generator itself is never run by a test.",
  ["tpl/generator/static_parser_gen.go", "tpl/cmd/tplgen/main.go", "tpl/cmd/tplgen/output.tpl"], [("GenStaticCode", "tpl/generator/static_parser_gen.go")], ["tplgen output, the compiled generated program"])
prop("C29", "qlang operators compute typed results",
  "Every qlang operator (+ - * / % unary - ! == != < > <= >= && ||, the assignment forms += -= *= /= %= ++ --) and conversion (int, float, byte, string, max, min) applied to any values gives the documented result type and value: int arithmetic on ints, float when a float takes part, bytes compare as ints, strings concatenate and compare, == and != tell values of different types apart (1 is not 1.0), && and || want a boolean on their left and yield their right operand as it is when they evaluate it. Every unsupported operand combination is a runtime error, never a wrong value.",
  ["inputs"], "every operator over every pair of operand values and types",
  "Tests use five integer operators.",
  [BN, BB], [("Add/Sub/.../EQ/LT builtin functions", BN)], ["qlang expression results", "builtin functions"])
prop("C30", "qlang evaluates each operand once, in order, and short-circuits",
  "In every qlang expression and statement the operands, arguments, list and map elements are evaluated exactly once, left to right, with the documented precedence and left associativity; && and || evaluate their right side only when needed, and code of branches not taken, of function bodies not called and of deferred expressions is not evaluated when it is read.",
  ["programs"], "every expression and statement with observable side effects",
  "Tests never observe evaluation order.",
  [QL, QC, IN], [("mute/_code marks in the grammar, And/Or", QL)], ["sequence of calls of a host function"])
prop("C31", "qlang control flow runs exactly the selected code",
  "if/elif/else runs the first branch whose condition is true or else the else branch; switch runs the first matching case or default and never falls through; for runs init once, then condition, body, step in order while the condition is true; nested to any depth, each construct leaves exactly one value. A non-boolean condition is a runtime error.",
  ["programs"], "every program with nested control flow",
  "One test runs one if and one for; one runs a prime search.",
  [QC, QL], [("If, Switch, For, evalCode", QC)], ["trace and variables of qlang programs"])
prop("C32", "qlang functions, closures and scopes",
  "A call binds each argument to its parameter (surplus arguments to the variadic one, a spread slice as separate arguments), runs the body in a fresh scope whose parent is the defining scope, and yields the returned value or nil; calls with a wrong argument count are errors. Assigning creates or updates a variable of the current function, an outer variable is updated only after it has been referenced in the function, assigning an unreferenced visible outer variable is an error, and names starting with _ are private to their function; closures keep sharing their defining scope's variables, and recursion is unlimited by earlier calls.",
  ["programs"], "every program with nested functions, closures, recursion and variadic calls",
  "Tests call two closures over globals.",
  [QF], [("Function.Call, getRef/getVars, externVar", QF)], ["trace and variables of qlang programs"])
prop("C33", "return, defer, panic and recover unwind correctly",
  "return ends its function at once from any nesting and yields the value; every deferred expression registered in a function or at top level is evaluated exactly once when that function (or the program run by SafeExec) ends, in reverse order, whether it ends normally, by return, by an error or because another deferred expression failed. A panic or runtime error travels up until a deferred function recovers it - recover gives it once and nil otherwise - and the caller then continues with its own state intact.",
  ["programs", "fault_sequences"], "every nesting of calls, defers, panics, recovers and returns",
  "No test uses defer or recover.",
  [QF, QE], [("Function.Call unwinding, ExecDefers, Recover", QF), ("SafeExec", QE)], ["trace and results of qlang programs"])
prop("C34", "qlang classes and objects",
  "new creates an object with its own members and runs _init with the given arguments; members set on one object are not visible on another, a method call binds this to the object it was taken from (also when the method value is stored and called later), and methods see the scope the class was defined in. Setting a member named like a method, reading a missing member or method, and new on a non-class are errors.",
  ["programs"], "every program with classes, objects and bound methods",
  "No test uses classes.",
  [QX], [("newClass, MemberRef, thisDeref, Object.SetVar", QX)], ["trace and variables of qlang programs"])
prop("C35", "qlang collections behave like Go slices and maps",
  "List and map literals, index, slice expressions, append, set, get, delete, len, cap, slice, mkmap, mapFrom, sliceFrom, sub and multiple assignment produce and update exactly the elements a Go slice or map would hold, with element types int, float64 or string when all elements are of that kind (ints widen to float in a mixed numeric list) and interface otherwise; sharing between slices is Go's. Out-of-range indexes, wrong element types, unequal multiple assignment and odd arguments are runtime errors, and a missing map key reads as undefined.",
  ["programs", "inputs"], "every sequence of collection operations",
  "One test appends ints to one list.",
  [BX, QL, QF], [("SliceFrom, MapFrom, Append, Set, Get, SubSlice, Index, MultiAssign", BX)], ["values of qlang programs compared with Go values"])
prop("C36", "The evaluation stack is balanced over any session",
  "After every successful evaluation on an engine exactly one value is left for Ret and after Ret none; after any failed evaluation - failing at any depth of expressions, blocks and calls - later evaluations on the same engine give the results they give on an engine that only saw the completed assignments, and values left by the failed one never show up in or accumulate across them.",
  ["histories", "fault_sequences"], "every sequence of good, failing and syntactically wrong snippets on one engine",
  "Each test evaluates one script on a fresh engine.",
  [QL, QC, QF], [("base/SetFrame/Clear, evalCode", QC)], ["Interpreter.Stack, Ret, Vars after each snippet"],
  [("base", "stack height a statement separator cuts back to", QL)])
prop("C37", "qlang errors carry cause and line and stay contained",
  "A script error - syntax error, runtime error, panic with a string or error, in top-level code, functions or deferred code - never escapes SafeExec/SafeEval as a Go panic: it comes back as an error that can be rendered, keeps the cause's message, and names the line (and file, if given) of the failing statement. Assignments completed before the error remain, statements after it do not run.",
  ["programs", "inputs"], "every failing script",
  "One test compares one message of one failing script.",
  [IN, QE, GR], [("RuntimeError wrapping in the action, SafeExec recover", IN)], ["error values of SafeExec/SafeEval"])
prop("C38", "Exit status of qlang programs",
  "return at top level ends the process with the returned int (0 if none) after running the deferred expressions, and main { } ends it with the int the block returns (0 if none), after the block's deferred expressions; nothing after it runs. If a deferred expression of the text fails and none recovers it, the text fails with that error and the process does not end.",
  ["programs"], "every program ending in a top-level return or a main block",
  "Tests cannot observe process exit.",
  [QF], [("Interpreter.Return, Interpreter.Main", QF)], ["exit status and output of a process running the script"])
prop("C39", "Interpreters written in qlang work like native ones",
  "An interpreter implemented as a qlang class (grammar, stack and function table) and run by the qlang interpreter engine calls its functions with the same tokens, counts, converted literals and stack arguments as a native interpreter would; muting and evaluating saved code work the same, so a calculator written in qlang gives the native calculator's results. Failures in its creation or evaluation come back as errors. The scan mode and the scanner of the options are used.",
  ["programs", "inputs"], "every expression evaluated by a qlang-hosted interpreter",
  "This engine has no test.",
  ["tpl/qlang/cl/interpreter/interpret.go"], [("newEngine marker/action", "tpl/qlang/cl/interpreter/interpret.go")], ["results of scripts using the interpreter module"])
prop("C40", "Importing never replaces an existing symbol",
  "Importing a module name or a global symbol that already exists panics and leaves the existing symbol in force, an import under a new name makes exactly the given table visible to scripts, and placeholder operators may be filled in once. In safe mode the module's _initSafe hook runs before its symbols become visible.",
  ["histories"], "every sequence of imports",
  "Tests import nothing beyond the fixed packages.",
  [QS, QE], [("spec.Import", QS)], ["qlang.Import, symbols seen by scripts"])
prop("C41", "Host values and functions cross the qlang boundary intact",
  "A host function or method called from a script receives the script's values (ints widening to float64 where asked) and its results come back as script values: integer kinds as int, floats as float64 (a named type over int or float64 may keep its type), no result as nil, several results as a list, everything else unchanged. Host struct fields, methods (by lower-case name, called without parentheses for auto-call types when they take no arguments) and the entries of maps with string keys are reachable as members, a missing member is an error, and script functions can be called from the host with the same outcome as from the script. printf, println and fprintln print what Go prints for the same values.",
  ["inputs", "programs"], "every host value, signature and member access",
  "Tests use no host objects.",
  [QL, QX, UT], [("Stack.PushRet/castVal, MemberRef, VCall", QX)], ["values seen by host functions and scripts"])
prop("C42", "Generated static interpreters equal interpreter.New",
  "For every well-formed grammar whose rule names are usable as Go variable names and every function table, the interpreter that tplgen -i writes and NewStaticInterpreter creates behaves as the one interpreter.New creates from the same grammar: with every option it is created or refused alike, evaluates any text with the same calls of the functions in the same order and with the same arguments (converted literals, counts, tokens, contexts, engines, values of the stack), gives the same results and errors, mutes and evaluates saved code of any rule the same. So the calculator of package number, rebuilt from its own go:generate directive, computes what the calculator computes.",
  ["programs", "inputs"], "every grammar, function table and evaluated text",
  "No generated interpreter exists in the tree; no test runs tplgen -i.",
  ["tpl/cmd/tplgen/output.tpl", "tpl/cmd/tplgen/main.go", "tpl/generator/static_parser_gen.go", IN], [("NewStaticInterpreter", "tpl/cmd/tplgen/output.tpl"), ("GenStaticCode", "tpl/generator/static_parser_gen.go")], ["calls, stack, errors of generated interpreters beside those of interpreter.New"])
prop("C43", "Calculators call functions the host adds to their tables",
  "A function with one result that the host puts into the function table of package number, cmplx or rat - under a new name or in place of an existing one - can be called in any expression: it is called once per call evaluated, in evaluation order, with exactly the values of its arguments, and its result of any numeric type of the calculator (floats and all integer kinds for number, those and complex numbers for cmplx, *big.Rat for rat) is the value of the call. A wrong number of arguments, a parameter type the values do not fit, an entry that is no function, a result type the calculator has no use for and a panic of the function with a string or error are errors, never a wrong value, and later lines are evaluated as usual.",
  ["programs", "inputs"], "every host function, every expression that calls it",
  "Tests use the built-in functions only.",
  ["tpl/number/number.go", "tpl/cmplx/cmplx.go", "tpl/rat/big.go", UT], [("Stack.PushRet, Stack.PopArgs, Calculator.Call", "tpl/number/number.go"), ("Call, DoCall", UT)], ["arguments recorded by the functions, values and errors of lines"])
prop("C44", "The host and the scripts share one set of variables",
  "At every point of every history of SetVar, Unset, edits of Vars and evaluations on an engine - also those a host function makes while a script runs or when it is deferred - a global name holds for the host (Var, Vars) and for the scripts (at top level, in functions, methods and blocks) the value last stored under it by either side, unchanged. Unset and the script's unset remove a variable: using it is an error then, unless a builtin of that name becomes visible again. Engines share nothing, but a function taken from another engine keeps working on the variables of its own.",
  ["histories", "programs"], "every sequence of edits and scripts, every host value",
  "Tests read one variable after one script.",
  [QL, QF], [("SetVar, Var, Vars, Unset", QL), ("getRef, getVars", QF)], ["Var, Vars, values passed to host functions"])
prop("C45", "What the host hands over is only read",
  "Nothing the host passes in is written to: not the bytes of a text or grammar nor the room behind its end, not a run of tokens, not the argument list of a call of a function or method of a script, not a list of the host a script only reads (length, index, slice, spread call, loop, assignment, comparison, capture), not a function table or options. Once a call has returned, the host may use the memory of its texts and grammars for something else: compiled grammars, functions and classes defined by the text, tokens handed out (kind, literal, position), documents and later evaluations are what they would be otherwise (source text taken from a scanner is that memory and excepted, as are error messages not rendered yet).",
  ["texts", "grammars", "programs", "arguments"], "every text, grammar, token run, argument list and host list, every reuse of their memory",
  "Tests pass fresh copies and never look at them again.",
  [MA, GR, CO, SC, QF], [("Tokenize, Match", MA), ("Cl, EvalSub", CO), ("stripCR, Scan", SC), ("Function.Call", QF)], ["write faults on read-only memory, outcomes, tokens and documents after the memory was overwritten"])

prop("C46", "What has been evaluated leaves nothing behind",
  "However many texts an instance has scanned, matched, compiled, extracted or executed, succeeding, failing or panicking, it keeps only what the program can still reach: the memory in use, the goroutines, the open files and the evaluation stack (after Ret, or after the failure of SafeExec) do not grow with the number of evaluations, nor with the number of instances made and dropped, where the variables of the host and the scripts hold the same number of values as before.",
  ["long runs", "memory", "failures"], "every history of evaluations on an instance",
  "Tests evaluate a handful of texts per process.",
  [MA, CO, IN, QF, "tpl/extractor/extractor.go"], [("Tokenize, Match", MA), ("Cl", CO), ("New, EvalCode", IN), ("Function.Call, ExecDefers, Clear", QF), ("Engine.SafeParse", "tpl/extractor/extractor.go")], ["heap in use after garbage collection", "goroutines", "open files", "stack depth"])

prop("C47", "A scanner may be used again",
  "A scanner is as good as new after Init: whatever it scanned before (to the end, beyond it, or abandoned anywhere, with errors or not, in any mode, on any file), its tokens, their positions, the errors reported and ErrorCount are those of a new scanner, and earlier handlers are not called any more. A file may be scanned again: line information recorded already stays as it is. Without a handler the same errors are counted. A file whose size is not that of the text is refused. (Keywords registered with an AutoKwScanner stay.)",
  ["reuse", "texts"], "every history of scans of one scanner",
  "Tests scan each text with a new scanner.",
  [SC, CO], [("Scanner.Init, error", SC), ("AutoKwScanner.Init", CO)], ["tokens, positions, errors and ErrorCount of each scan of a history"])

prop("C48", "The stacks of the engines are stacks",
  "For the stacks of number, cmplx, rat and qlang, new ones and those of an engine: values come out last in, first out, however they were pushed (Push and its kinds, results of functions, arities); PopArgs(n) and a call of a function with n arguments take the top n values in the order they were pushed, or nothing at all when there are fewer; Pop and Ret of an empty stack say so; Clear and Ret leave it empty. Arguments taken stay what they are, whatever is pushed later.",
  ["stacks", "calls"], "every history of operations on a stack",
  "Tests evaluate expressions, which use the stacks in a few patterns only.",
  ["tpl/number/number.go", "tpl/cmplx/cmplx.go", "tpl/rat/big.go", QL, UT], [("Stack.Push..., Pop, PopArgs, PushRet, Clear", "tpl/number/number.go"), ("Stack of qlang", QL), ("Call, DoCall", UT)], ["values popped, arguments handed to functions, contents at the end"])

prop("C49", "A compiler, and a scanner, serve many grammars",
  "One Compiler may compile one grammar after another (its fields set anew), and several may share an AutoKwScanner: every grammar compiled, before or after others and before or after grammars that were refused, matches as it would alone, except that the keywords of all grammars compiled with the scanner are keywords in all of them. Rules, marks, the Init function and the scan mode of a compiled grammar are those at the time it was compiled; nothing set later, and no refused grammar, changes them.",
  ["grammars", "reuse"], "every sequence of grammars on one compiler or scanner",
  "Tests use a new compiler for each grammar.",
  [CO], [("Compiler.Cl, AutoKwScanner.Ltot", CO)], ["outcomes and actions of matches with each grammar of a sequence"])

prop("C50", "What the host changes later is its own",
  "An engine goes by its options, grammar, conversion function and function table as they were when it was made: changing the option struct, the bytes of the grammar, or the entries of the table afterwards has no effect on interpreters, extractors and qlang. A document belongs to who got it: changing it in any part changes neither Result() nor documents handed out before or later.",
  ["engines", "documents"], "every change of options, tables and documents between evaluations",
  "Tests leave options and documents alone.",
  [IN, QE, "tpl/extractor/extractor.go", "tpl/extractor/document.go"], [("New", IN), ("New, Result", "tpl/extractor/extractor.go"), ("Node.toMap", "tpl/extractor/document.go")], ["documents, action logs and errors compared with an engine nobody touches"])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
