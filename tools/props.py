TESTS_LEX = "The existing tests scan one short text and one list of operators; "
TESTS_PEG = "The existing tests match a handful of sources against four small grammars; "
COMMON = ("Exhaustive within the stated bounds (evidence lists every family with its case count); every case runs "
          "the real code, nothing is sampled. Trusts the Go runtime and the reference in /verif/mc. ")
ENUM = "bounded exhaustive enumeration of "

PROPS = []


def P(id, title, statement, over, text, why, files, mech, observe, tech, note, na=None):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why,
                      files=files, mech=mech, observe=observe, tech=tech, note=COMMON + note, na=na))


P("C01", "Token stream follows the lexical grammar",
  "For every well-formed source text the scanner delivers exactly the tokens the lexical grammar prescribes, by longest match: their kinds, literals and offsets, in order, then EOF. Comments are skipped unless the mode asks for them, in which case they are delivered as tokens with their text (carriage returns removed from raw strings and general comments), and nothing else about the stream changes.",
  ["inputs", "configurations"], "all source texts x scan modes",
  TESTS_LEX + "every sequence of characters can form a token boundary, and the scanner's state (lookahead, offsets) carries over from token to token.",
  ["tpl/scanner.go", "tpl/token.go"],
  [("character classification and longest match", "tpl/scanner.go Scanner.Scan, switch2/3/4"),
   ("numbers", "tpl/scanner.go scanNumber, scanMantissa"),
   ("quoted literals and comments", "tpl/scanner.go scanString, scanRune, scanRawString, scanComment, scanSharpComment")],
  ["Scanner.Scan"],
  ENUM + "source texts on the real scanner against a reference lexer",
  "The reference lexer (mc/lexref) is table/regular-grammar style and shares no code with the scanner; keyword scanners are C06.")

P("C02", "Scanning is lossless, progresses, and ends",
  "Whatever bytes it is given, the scanner never panics and reaches EOF after finitely many tokens; token positions increase strictly, each token's text is found in the source at its position (but for carriage returns taken out and bytes that are no UTF-8), and the bytes between tokens are only white space or (when not asked for) comments. After EOF it keeps delivering EOF, and the error count equals the number of reported errors; a nil error handler changes nothing else.",
  ["inputs", "configurations"], "all byte strings x scan modes x with or without error handler",
  TESTS_LEX + "malformed input (invalid UTF-8, NUL, unterminated constructs) is not tested at all.",
  ["tpl/scanner.go"],
  [("reading runes", "tpl/scanner.go Scanner.next"), ("error reporting", "tpl/scanner.go Scanner.error"),
   ("token loop", "tpl/scanner.go Scanner.Scan")],
  ["Scanner.Scan", "Scanner.ErrorCount", "error handler"],
  ENUM + "byte strings on the real scanner with invariant monitors",
  "Invariants are checked on every token, in all four scan modes; byte strings of length 2 are complete, longer ones are over critical bytes.")

P("C03", "Automatic semicolon insertion",
  "When semicolon insertion is on, a semicolon token (literal newline) is delivered at the end of a line, or at the end of the source, exactly when the line's last token is an identifier, a literal, an imaginary number, one of ) ] } ++ -- or the like (the documented set), also when a comment precedes the line end; all other tokens are those of the scan without insertion. When it is off, no such token appears.",
  ["inputs", "configurations"], "all source texts x comment mode",
  "No existing test turns semicolon insertion on; whether a semicolon is due depends on the previous token and on how far comments reach.",
  ["tpl/scanner.go"],
  [("insertion flag carried between tokens", "tpl/scanner.go Scanner.insertSemi, Scan"),
   ("look ahead over comments", "tpl/scanner.go findLineEnd")],
  ["Scanner.Scan with InsertSemis"],
  ENUM + "source texts on the real scanner against a two-state reference model",
  "The set of kinds after which a semicolon is inserted is read off the documented Go rule plus this scanner's own kinds, see mc/lexref.")

P("C04", "Lexical errors are reported, located, and only for malformed text",
  "The scanner reports an error for every malformed construct - unterminated strings, characters, raw strings and comments, bad escapes, bad octal, hexadecimal and exponent parts, empty or over-long character literals, illegal characters, NULs, byte order marks inside the text, bad UTF-8 - at a position inside the construct, and reports none for well-formed text. After an error, scanning goes on and the rest of the text is tokenized as if the malformed construct were a token.",
  ["inputs"], "all source texts, well-formed and malformed",
  "No existing test has a lexical error.",
  ["tpl/scanner.go"],
  [("literal checks", "tpl/scanner.go scanNumber, scanEscape, scanRune, scanString"),
   ("illegal characters and encoding", "tpl/scanner.go next, Scan")],
  ["ScanErrorHandler", "Scanner.ErrorCount"],
  ENUM + "source texts on the real scanner against a reference well-formedness decision",
  "Error texts are not compared; presence, place and recovery are.")

P("C05", "Positions, lines, file names and source ranges are exact",
  "For every token the position translates to the line and column where it starts, the end position to the byte after its last one, and every range of tokens yields exactly the source text from its first to its last token. File name and line follow //line comments, and reusing the scanner or placing the file at another base changes none of this. A file whose size isn't that of the source is refused.",
  ["inputs", "histories"], "all well-formed source texts x token ranges x bases x reuse of the scanner",
  "The existing tests never look at lines, columns, ends or source ranges.",
  ["tpl/scanner.go", "tpl/grammar.go"],
  [("line table", "tpl/scanner.go next, Init"), ("//line comments", "tpl/scanner.go interpretLineComment"),
   ("token end", "tpl/scanner.go Token.End"), ("source ranges", "tpl/grammar.go Source, FileLine")],
  ["Token.Pos", "Token.End", "Source", "FileLine", "token.File"],
  ENUM + "source texts and token ranges on the real code against positions computed from the text",
  "A line that starts exactly at the end of the source isn't representable in go/token's table and is exempt.")

P("C06", "Token tables are consistent; keywords are exact, distinct and stable",
  "Literal and kind of every operator, literal class and documented token name translate into each other, unknown literals translate to nothing, and every operator scans as its own kind with its own length. With a keyword-registering scanner each registered word gets a kind of its own outside all other kinds, translates both ways, scans as that kind (and only that exact word does), and registering again or registering others never changes it.",
  ["inputs", "histories"], "all kinds, all literals of the tables, all registration histories up to a length",
  "test for tokens checks a few literals; keyword numbering depends on the history of registrations.",
  ["tpl/token.go", "tpl/compiler.go", "tpl/scanner.go"],
  [("tables", "tpl/token.go Token2Lit, Lit2Token, TokenLen"), ("keyword registration", "tpl/compiler.go AutoKwScanner.Ltot, Ttol, Scan")],
  ["Token2Lit", "Lit2Token", "TokenLen", "Scanner.Ttol/Ltot", "AutoKwScanner.Scan"],
  ENUM + "kinds, literals and keyword-registration histories on the real code",
  "Kinds are enumerated far past all tables; registration histories are all sequences over words that are prefixes of each other.")

P("C07", "Matching implements PEG semantics and terminates",
  "For every grammar without left recursion and every token sequence, matching succeeds or fails and consumes exactly as parsing-expression semantics prescribe: sequence, ordered choice without backtracking into a chosen alternative, greedy repetition, option, list, lookahead and negative lookahead (which consume nothing), end of input, true, and recursive rules. Matching always terminates, also when a repeated item matches the empty sequence. A rule variable keeps the body it was given first, and refuses another.",
  ["programs", "inputs"], "all grammars x all token sequences",
  TESTS_PEG + "the interplay of choice, repetition and lookahead on failing and partly matching inputs is untested.",
  ["tpl/grammar.go"],
  [("combinators", "tpl/grammar.go grAnd, grOr, grRepeat0/1/01, grList, grPeek, grNot, grEOF, grTrue, grToken Match"),
   ("rules", "tpl/grammar.go GrVar, GrNamed")],
  ["Grammar.Match"],
  ENUM + "grammar trees and token sequences on the real matcher against a PEG reference machine",
  "The reference (mc/peg) is an explicit state machine over (expression, position); states and transitions in the evidence are its steps, and each run is compared with the implementation.")

P("C08", "Actions run in match order with exact token spans",
  "During matching, an action runs exactly when the expression it is attached to has matched, after the actions inside it, with exactly the tokens that expression consumed and nothing when it fails; the number of items an expression reports in the action is that of its latest match. Actions under lookahead or in an alternative that fails later have run too, in the same order.",
  ["programs", "inputs"], "all grammars with actions x all token sequences",
  TESTS_PEG + "spans and order are only visible on success in them.",
  ["tpl/grammar.go"],
  [("actions", "tpl/grammar.go grAction.Match"), ("item counts", "tpl/grammar.go Len of grRepeat0/1/01, grList")],
  ["Action callback", "Grammar.Len"],
  ENUM + "grammar trees with instrumented actions on the real matcher against a PEG reference machine",
  "Every node carries an action; the complete call sequence with spans and counts is compared.")

P("C09", "Transactions are paired on every path",
  "For every transaction, the begin callback runs before anything inside it, the end callback runs exactly once afterwards with the value begin returned, on success and on failure alike, and is told the error if and only if the inner expression failed. Nested and repeated transactions are strictly nested. (A failure behind a commit mark, which aborts the match as a whole, is C10; no callbacks are promised then.)",
  ["programs", "inputs"], "all grammars with transactions x all token sequences, matching or not",
  "No existing test uses a transaction directly or checks what happens when the inner expression fails.",
  ["tpl/grammar.go"],
  [("transactions", "tpl/grammar.go grTrans.Match")],
  ["Transaction callbacks"],
  ENUM + "grammar trees with instrumented transactions on the real matcher against a PEG reference machine",
  "Every node carries a transaction and an action; the complete interleaved sequence is compared.")

P("C10", "Committed sequences fail fast",
  "Once the part of a sequence before a commit mark (!) has matched, a failure after it in the same sequence makes the whole match fail at once with an error that says so; no enclosing choice, option, repetition or list tries anything else. Without a failure after it, or when the part before it fails, the mark changes nothing.",
  ["programs", "inputs"], "all grammars with commit marks at every position x all token sequences",
  "The existing tests hold no grammar with a commit mark.",
  ["tpl/grammar.go", "tpl/compiler.go"],
  [("commit in sequences", "tpl/grammar.go grAnd.Match"), ("propagation through choice and repetition", "tpl/grammar.go grOr, grRepeat*, grList Match"),
   ("compilation of !", "tpl/compiler.go tplSpec.cut")],
  ["Grammar.Match", "MatchError"],
  ENUM + "grammar trees with marks at every set of positions on the real matcher against a PEG reference machine",
  "A mark with nothing after or before it to commit (lone mark) is outside the domain: its meaning isn't documented.")

P("C11", "Match diagnostics name the failing grammar, place and text",
  "When matching fails, the error says what was expected and where: the expected grammar as text, the line of the token at which matching failed (the last line of the text, if it failed at its end) and the source text there; it is the failure the fixed choice rules prescribe among several alternatives. Producing the message never panics, including at the end of input and far into large sources.",
  ["programs", "inputs"], "all grammars x all rejected token sequences x layouts of lines",
  "No existing test looks at an error.",
  ["tpl/grammar.go", "tpl/match.go"],
  [("choice of the reported failure", "tpl/grammar.go grOr.Match, MatchError"), ("line and text", "tpl/grammar.go calcErrorInfo, nextLines")],
  ["MatchError.Error", "MatchError fields"],
  ENUM + "grammar trees, inputs and line layouts on the real matcher against a PEG reference machine",
  "The exact message is compared with one built from the reference's failure; the line number reported when the failure is at the end of the source is exempt when nothing is left there (documented in DESIGN.md).")

P("C12", "Grammar text means what the notation says",
  "Compiling a grammar text yields a matcher that accepts, consumes and marks exactly what the notation prescribes: precedence and grouping of choice, sequence, list and prefix operators, literals and token names, marks, commit marks, rules in any order (the rule named doc is the root, wherever it stands), with any white space and comments, and whatever the compiler or its scanner was used for before. Every rule and variable is listed under its name.",
  ["programs", "inputs"], "all well-formed grammar texts x all token sequences",
  "The existing tests compile four grammars.",
  ["tpl/compiler.go", "tpl/grammar.go"],
  [("grammar of grammars and its stack machine", "tpl/compiler.go Compiler.Cl")],
  ["Compiler.Cl", "Matcher.Match", "CompileRet.Grammars/Vars"],
  ENUM + "grammar texts on the real compiler against an independent recursive-descent reading plus PEG reference",
  "Each compiled text is also matched against all inputs up to a length, so that wrongly built trees are seen by what they accept.")

P("C13", "Malformed grammar texts are refused with an error",
  "A grammar text that isn't well-formed - syntax errors, unknown tokens, undefined or unassigned or doubly defined rules, missing or wrongly placed operands, no rule named doc, lexical errors - is refused: compiling it gives an error, or panics with an error value or message saying what is wrong. It is never accepted, and never makes the compiler hang or crash with a runtime error. Refusal leaves no effect on later compilations.",
  ["programs", "histories"], "all grammar texts that are not well-formed",
  "No existing test compiles a malformed grammar.",
  ["tpl/compiler.go"],
  [("compiler checks", "tpl/compiler.go Compiler.Cl")],
  ["Compiler.Cl"],
  ENUM + "grammar texts on the real compiler against an independent recursive-descent decision",
  "Well-formedness is decided by the reading in mc/peg/text.go.")

P("C14", "Printing a grammar and compiling it again preserves its meaning",
  "The text that a grammar prints, compiled again, accepts and consumes exactly what the original does, for grammars built by hand and compiled from text alike.",
  ["programs", "inputs"], "all grammars x all token sequences",
  "The existing tests compare the printed form of two grammars with a string.",
  ["tpl/grammar.go"],
  [("printing with precedences", "tpl/grammar.go Marshal of all combinators, Code")],
  ["Code", "Matcher.Code", "Compiler.Cl"],
  ENUM + "grammar trees: print, recompile and match on the real code against a PEG reference machine",
  "Constructs that can't be written in the notation (lone token kinds without literal) are outside the domain.")

P("C15", "The matching entry points agree and depend on no history",
  "Partial matching, exact matching, evaluation, sub-evaluation of text, bytes or tokens, and tokenizing agree: exact matching succeeds exactly if partial matching does and leaves nothing over, lexical errors make each of them fail, and sub-evaluation of a rule gives what that rule matched on its own gives. None of the answers depends on what the same object was used for before, whether that succeeded or failed. A sub-evaluation of text within an action leaves the texts, lines and errors of the evaluation it is part of as they are. An error says the same whenever it is looked at.",
  ["histories", "inputs", "programs"], "all histories of operations up to a length x grammars x sources",
  "The existing tests use each matcher once, with sources that match.",
  ["tpl/match.go", "tpl/compiler.go"],
  [("entry points", "tpl/match.go Match, MatchExactly, Eval, Tokenize"), ("sub-evaluation", "tpl/compiler.go CompileRet.EvalSub"),
   ("scanner reuse", "tpl/match.go requireScanner, Tokener")],
  ["Match", "MatchExactly", "Eval", "EvalSub", "Tokenize"],
  "explicit-state exploration of all operation histories on the real objects against a history-free reference",
  "Every history of up to 2 (over a smaller set of operations 3 or 4) operations, plus long ones.")

P("C16", "Engines don't disturb each other",
  "Engines, compilers and scanners that share no object give the same results whether they are used alone, one after the other, or at the same time from several goroutines in any interleaving, and using them at the same time causes no data race.",
  ["schedules"], "all interleavings of two or three engines' scanning, matching, actions and compilation steps",
  "The existing tests are sequential.",
  ["tpl/compiler.go", "tpl/scanner.go", "tpl/token.go", "tpl/interpreter/interpreter.go", "tpl/qlang/engine.go", "tpl/qlang/cl/qlang.go", "tpl/extractor/extractor.go"],
  [("no shared mutable state", "package-level tables in tpl/token.go, tpl/compiler.go, tpl/qlang/cl, tpl/qlang/spec are read-only after init")],
  ["results of every engine", "race detector"],
  "stateless model checking: all interleavings up to a preemption bound under a controlled scheduler, plus a race-detector pass",
  "Scheduling points are scanner calls, actions and called functions; the race pass is one free-running execution of the same bodies and only adds to the exploration.")

P("C17", "Marks call the right functions with the right arguments",
  "Evaluating a source calls, for every marked expression that matches, exactly the function the mark names, in order, with the receiver and with the arguments its signature asks for - the matched tokens, the source, the number of items, the parsed value, the context, the engine - and pops or pushes nothing else; a function whose parameters can't take them isn't called and the evaluation fails. An interpreter with a CallFn method is given the functions without a receiver instead. Muting marks suppress calls in between and nest; the mark _tr only shows the source of what it marks. Errors and panics of the functions stop the evaluation and surface with file and line; a table that lacks a function the grammar names, or has one there that is no function, is variadic, takes no or too many parameters or has unsuitable results, is refused when the engine is built (with an error or a panic).",
  ["programs", "inputs", "histories"], "all grammars with marks x function signatures x inputs",
  "The existing test is one calculator with four signatures and valid input.",
  ["tpl/interpreter/interpreter.go", "tpl/compiler.go"],
  [("dispatch by signature", "tpl/interpreter/interpreter.go New"), ("muting", "tpl/interpreter/interpreter.go New (mute marks)"),
   ("sub-evaluation", "tpl/interpreter/interpreter.go EvalCode")],
  ["calls received by the function table", "Eval's error"],
  ENUM + "function tables, grammars and inputs on the real engine against a counter model over the PEG reference trace",
  "All supported signatures of plain functions, receiver functions and stack functions are in the table.")

P("C18", "Number literals evaluate to their exact value",
  "Every integer literal that is a token - decimal, octal, hexadecimal - evaluates to its value if that is representable, and every floating-point literal to the nearest representable number; literals out of range are refused and never silently changed into something else. Values are delivered in the numeric type asked for.",
  ["inputs"], "all numeric literals",
  "The existing tests evaluate a few decimal literals.",
  ["tpl/interpreter/interpreter.go"],
  [("conversions", "tpl/interpreter/interpreter.go ParseInt, ParseFloat, GetValue")],
  ["ParseInt", "ParseFloat", "GetValue", "engine arguments"],
  ENUM + "numeric literals on the real conversions against exact rational arithmetic",
  "Rounding is decided by big.Rat comparison with the neighbouring floats.")

P("C19", "Calls respect arity and adapt or refuse argument types",
  "Calling a function or object with arguments from the stack passes exactly the given number of arguments in order, nil and convertible numeric values adapted to the parameter types, pushes its single result (if any), and leaves the rest of the stack untouched; wrong counts and unsuitable types are refused (with an error or a panic) and never reach the function. Variadic functions receive all extra arguments. The calculators call the functions of their tables, also those added by a user, in this way: results of all numeric types they support become values, others are refused.",
  ["inputs"], "all function signatures x argument lists",
  "The existing tests call two-argument functions with floats.",
  ["tpl/interpreter.util/call.go"],
  [("arity and type checks", "tpl/interpreter.util/call.go Call, DoCall, VCall, validateType")],
  ["Call", "DoCall", "VCall"],
  ENUM + "function signatures and argument lists on the real call path against a specification of adaptation",
  "Types range over 16 argument values and 13 parameter types. Outside the domain: nil passed to a parameter that is not an interface.")


CALC = "The existing tests evaluate one or two expressions per calculator; "

P("C20", "The number calculator gives every expression its value",
  "The floating-point calculator accepts exactly the expressions of its language - numbers, constants, + - * / % and unary minus, parentheses, function calls with their number of arguments - and gives each the value that ordinary precedence, left associativity and IEEE arithmetic prescribe, with each named function being the mathematical function of that name. Everything else, unknown names and wrong argument counts included, is refused (with an error or a panic).",
  ["inputs"], "all expression texts",
  CALC + "precedence, associativity, variadic functions and errors interact in unboundedly many texts.",
  ["tpl/number/number.go", "tpl/interpreter/interpreter.go", "tpl/interpreter.util/call.go"],
  [("grammar and function table", "tpl/number/number.go Grammar, Fntable"), ("stack and calls", "tpl/number/number.go Stack, Calculator.Call, Arity")],
  ["Calculator.Eval", "Calculator.Ret"],
  ENUM + "expression texts on the real calculator against an independent recursive-descent evaluator",
  "All token strings up to a length over three alphabets, all expression trees, every function on every argument count and on special values; results compared bit for bit.")

P("C21", "The complex calculator gives every expression its value",
  "The complex calculator accepts exactly the expressions of its language, imaginary literals included, and gives each the value that ordinary precedence, left associativity and complex arithmetic prescribe, with each named function being the complex function of that name. Everything else is refused (with an error or a panic).",
  ["inputs"], "all expression texts",
  CALC + "the complex one has no function with real arguments tested.",
  ["tpl/cmplx/cmplx.go", "tpl/interpreter/interpreter.go", "tpl/interpreter.util/call.go"],
  [("grammar and function table", "tpl/cmplx/cmplx.go Grammar, Fntable"), ("stack and calls", "tpl/cmplx/cmplx.go Stack, Calculator.Call, Arity")],
  ["Calculator.Eval", "Calculator.Ret"],
  ENUM + "expression texts on the real calculator against an independent recursive-descent evaluator",
  "Same families as C20, over complex values.")

P("C22", "The rational calculator is exact",
  "The rational calculator accepts exactly the expressions of its language and gives each its exact rational value, however large numerators and denominators get; dividing by zero, unknown names, wrong argument counts and other texts are refused (with an error or a panic). No evaluation changes the value of an operand used elsewhere in it, the package's functions leave their arguments as they are, and a result belongs to the caller: what happens to it later and later evaluations don't affect each other.",
  ["inputs"], "all expression texts",
  CALC + "big.Rat values are mutable and shared by reference on the calculator's stack.",
  ["tpl/rat/big.go", "tpl/interpreter/interpreter.go", "tpl/interpreter.util/call.go"],
  [("grammar, functions and operators", "tpl/rat/big.go"), ("stack and calls", "tpl/rat/big.go Stack, Calculator.Call, Arity")],
  ["Calculator.Eval", "Calculator.Ret"],
  ENUM + "expression texts on the real calculator against an independent evaluator on integer fractions",
  "The reference keeps fractions as pairs of integers of its own.")

P("C23", "Calculators survive errors and don't depend on history",
  "A calculator gives the same answer to an expression whatever was evaluated before on it or on another one, whether that succeeded, was malformed or failed half way; the result of a successful evaluation is delivered exactly once, whatever came before it.",
  ["histories"], "all histories of good and failing evaluations and result requests on one or two calculators",
  CALC + "no test evaluates anything after an error; operands of a failed evaluation stay on the stack.",
  ["tpl/number/number.go", "tpl/cmplx/cmplx.go", "tpl/rat/big.go", "tpl/interpreter/interpreter.go", "tpl/match.go"],
  [("stack reset", "Calculator.Ret and Stack of number, cmplx, rat"), ("scanner reuse", "tpl/match.go Tokenize")],
  ["Calculator.Eval", "Calculator.Ret"],
  "explicit-state exploration of all operation histories on the real calculators against fresh ones",
  "Histories up to 4 operations on one calculator, 2+2 on two, and long ones.")

P("C24", "An extracted document mirrors the matched structure",
  "Extracting a source with a marked grammar yields the document its marks describe: every matched leaf mark puts the value of its expression's first token under its name into the node it lies in, node marks open and close nested documents, array marks collect every value or node in source order and nothing else. Parts of the source matched by an alternative that was given up leave no trace if they lie within a failed node, and a source that doesn't match yields an error instead of a document.",
  ["programs", "inputs"], "all marked grammars x all token sequences",
  "The existing tests extract two documents from one grammar each; interleaved arrays, nested and failed nodes are not tested.",
  ["tpl/extractor/extractor.go", "tpl/extractor/document.go"],
  [("leaf marks and nodes as transactions", "tpl/extractor/extractor.go New"), ("document tree", "tpl/extractor/document.go insertLeaf, insertNode, toMap")],
  ["Engine.Extract", "Engine.SafeExtract", "Engine.Parse"],
  ENUM + "marked grammar trees and token sequences on the real extractor against a document built from the PEG reference trace",
  "Outside the domain: one tag used for arrays and plain values at once, and which of several values of one plain tag in one node is kept.")

P("C25", "Extracted values are converted exactly or refused",
  "A leaf is delivered in the type its mark asks for with exactly the value of its literal: integers in range, floating-point numbers correctly rounded, strings and characters with all escapes decoded, texts verbatim; a literal that doesn't have such a value is refused with an error rather than altered (so is a Char of several bytes). Conversions of the user's own are called with the literal and their errors refuse the source. A mark without a type is refused when the extractor is built, one with an unknown type when it is to convert something.",
  ["inputs", "configurations"], "all literals x all leaf types",
  "The existing tests convert a few well-behaved literals.",
  ["tpl/extractor/extractor.go"],
  [("conversions", "tpl/extractor/extractor.go GetValue"), ("own conversions", "tpl/extractor/extractor.go New, Options")],
  ["SafeExtract result and error"],
  ENUM + "literals on the real extractor against an independent decoder and exact integer arithmetic",
  "Outside the domain (not documented): Char of a token that is no CHAR, Int of hexadecimal or leading-zero literals.")

P("C26", "Extraction doesn't depend on history; its entry points agree",
  "All entry points of an extractor - parsing, extracting, their safe forms, with text or bytes, from a file name or not - give the same document or all refuse; the safe ones never panic. The answer to a source is the same whatever was extracted before and whether that failed, and documents returned earlier never change.",
  ["histories", "inputs"], "all histories of extractions up to a length, on one or two extractors",
  "The existing tests use each extractor once or twice with good sources.",
  ["tpl/extractor/extractor.go", "tpl/extractor/document.go", "tpl/match.go"],
  [("document state of an engine", "tpl/extractor/extractor.go Engine"), ("panics turned into errors", "tpl/extractor/extractor.go SafeExtract")],
  ["Extract", "SafeExtract", "Parse", "SafeParse", "Result"],
  "explicit-state exploration of all operation histories on the real extractors against a history-free reference",
  "Three grammars; sources that match, don't, have lexical errors, or values that can't be converted.")

P("C27", "Generated compilers behave like the dynamic compiler",
  "For every well-formed grammar text the code generator emits Go code that compiles and whose compiler yields a matcher with exactly the meaning of the text: the same inputs accepted, the same tokens consumed, the same marks with the same spans, the same rules by name, honouring the scanner, scan mode, init callback and marker it is given. A text that isn't well-formed is refused by the generator.",
  ["programs", "inputs"], "all grammar texts x all token sequences",
  "The existing tests don't generate anything: the one test of the generator is in a testdata directory and compares one checked-in file.",
  ["tpl/generator/static_parser_gen.go", "tpl/compiler.go"],
  [("code emission", "tpl/generator/static_parser_gen.go GenStaticCode")],
  ["GenStaticCode", "generated StaticCompiler.Cl", "Matcher.Match", "CompileRet.EvalSub"],
  ENUM + "grammar texts through the real generator, the Go compiler and the generated matcher against a PEG reference machine",
  "About 3800 texts (quick) are compiled and run, all others are generated and parsed as Go.")

P("C28", "Generated interpreters behave like the dynamic engine",
  "The tplgen command, pointed at a Go package that holds a grammar in a constant, variable or assignment, replaces the output file with code that compiles in that package, and the interpreter it generates calls the same functions with the same arguments, evaluates the same sources to the same results and refuses the same ones as the dynamic engine does for that grammar. (A function with a *FileLine parameter, which only generated interpreters support, gets the file name and line of the first matched token, or an empty one if nothing was matched.)",
  ["programs", "inputs", "configurations"], "all packages with a grammar x function tables x sources",
  "No existing test runs tplgen, and the interpreter it emits is a text template that no test compiles.",
  ["tpl/cmd/tplgen/main.go", "tpl/cmd/tplgen/output.tpl", "tpl/generator/static_parser_gen.go"],
  [("finding the grammar", "tpl/cmd/tplgen/main.go findInDecl, findInGenDecl, findInAssignment"), ("the generated interpreter", "tpl/cmd/tplgen/output.tpl NewStaticInterpreter, GetValue, EvalCode")],
  ["output file of tplgen", "calls received by the function table", "Eval's error", "calculator results"],
  ENUM + "programs through the real tplgen command and of sources on the generated interpreters against a counter model and the dynamic engine",
  "Function signatures that the generated interpreter doesn't support (Context arguments) are outside the domain.")

QL = ("No existing test runs the scripting language at all (one test in a directory that isn't built compares nothing); ")
QB = ("The reference interpreter (mc/qref) walks a syntax tree and shares no code with the stack machine of the repository; "
      "texts of run-time errors other than the values given to panic aren't compared. ")

P("C29", "Script expressions have the values of their operators",
  "In the scripting language every operator, assignment operator, sub-slice, literal and builtin function gives the documented value for operands of every type it supports (integers, floats mixed with integers, bytes, strings, booleans, lists, maps, nil, undefined), and operands it doesn't support make the evaluation fail with an error instead of giving a value. Precedence and associativity follow the grammar (binary operators of one level are left associative, unary operators bind tighter, && and || loosest), an assignment operator x op= e means x = x op e, and a text that isn't an expression of the grammar is refused as malformed.",
  ["programs", "inputs"], "all operators and builtins x all pairs (triples) of values of all types; all token strings up to a length",
  QL + "each operator is a table of type combinations, with promotion between int, byte and float, so single examples decide nothing about the others.",
  ["tpl/qlang/cl/qlang.go", "tpl/qlang/lib/builtin/builtin.go", "tpl/qlang/lib/builtin/number.go", "tpl/qlang/lib/builtin/boolean.go"],
  [("grammar and function table", "tpl/qlang/cl/qlang.go"), ("arithmetic, comparison and conversions", "tpl/qlang/lib/builtin")],
  ["Qlang.SafeEval", "Qlang.Var", "Qlang.Ret"],
  ENUM + "operator and operand combinations and of token strings on the real interpreter against a reference interpreter",
  QB + "Conversions Go leaves to the implementation (NaN or out-of-range floats to int) are outside the domain.")

P("C30", "Script control flow runs exactly the statements it should, in order",
  "if/elif/else runs the body of the first true condition and evaluates no later condition; switch (with or without a value) runs the first case that matches, or default, and no other case expression after it; for runs its initializer once, its condition before every round, its step after every round, until the condition is false; && and || evaluate their right operand only if the left one doesn't decide. Statements run in order, operands and arguments are evaluated exactly once, from left to right, and a condition that isn't a boolean makes the evaluation fail. Branches used as values give the value of the statement that ran last. How a program is laid out (lines, semicolons, comments) doesn't matter.",
  ["programs"], "all programs of statements, branches and loops up to a size",
  QL + "nesting of bodies (which are compiled lazily and executed through a nested instruction run) produces interactions that no fixed program covers.",
  ["tpl/qlang/cl/ctrl.go", "tpl/qlang/cl/qlang.go"],
  [("branches and loops", "tpl/qlang/cl/ctrl.go"), ("nested execution", "tpl/qlang/cl/ctrl.go evalCode, tpl/interpreter/interpreter.go EvalCode")],
  ["order of calls to a traced Go function", "Qlang.SafeEval", "Qlang.Var"],
  ENUM + "programs up to a size on the real interpreter against a reference interpreter",
  QB + "Programs that don't end within a bound in the reference are skipped. The value of a block that ends with a semicolon isn't specified.")

P("C31", "Script functions bind arguments and return values faithfully",
  "Calling a function binds each parameter to its argument (evaluated once, left to right, before the call); a variadic function gets the remaining arguments as a list and f(list...) spreads a list; a call with a wrong number of arguments, or of something that isn't a function, fails. return ends the call (and only that call) at once from within any nesting of blocks, gives the value of its expression, and nil without; without a return the value is nil. A return outside of any function ends the process, after the deferred calls, with the integer it gives as exit status (0 without a value), as does main { ... } at the end of its body, which is run like that of a function. Recursion and functions that call, return and take functions keep the activations apart, and calls leave nothing on the caller's evaluation stack, so that values around a call in an expression aren't disturbed.",
  ["programs"], "all parameter lists x argument lists x bodies up to a size x calling contexts",
  QL + "return unwinds nested instruction runs and a shared stack; whether anything is left over shows only in certain contexts.",
  ["tpl/qlang/cl/function.go", "tpl/qlang/cl/qlang.go"],
  [("calls and parameters", "tpl/qlang/cl/function.go Function.Call"), ("return", "tpl/qlang/cl/function.go Return")],
  ["Qlang.SafeEval", "Qlang.Var", "traced calls"],
  ENUM + "function definitions, calls and contexts on the real interpreter against a reference interpreter",
  QB + "return at the top level and main end the process and aren't run.")

P("C32", "defer, panic and recover in scripts",
  "Deferred calls run when their function (or the top level) ends, in the reverse order of the defer statements that were executed, exactly once each, whether it ends normally, by return, or by a panic or run-time error, and see the variables as they are then. A panic unwinds activation by activation; recover(), called in a deferred function literal of the panicking function, gives the error of the panic in progress (nil if there is none) and stops it: the function then returns normally to its caller and everything continues with the evaluation stack intact. A panic in a deferred call replaces the one in progress and the remaining deferred calls still run. A panic nobody recovers becomes the error of the evaluation.",
  ["programs"], "all programs up to a size with defer, panic, run-time errors, recover and return in up to three activations",
  QL + "the order of unwinding is decided by the whole history of the activation.",
  ["tpl/qlang/cl/function.go", "tpl/qlang/cl/ctrl.go", "tpl/qlang/engine.go"],
  [("deferred calls", "tpl/qlang/cl/function.go Defer, ExecDefers, execDefer"), ("recover", "tpl/qlang/cl/function.go Recover"), ("errors of an evaluation", "tpl/qlang/engine.go SafeEval")],
  ["traced calls", "error of SafeEval", "Qlang.Var"],
  ENUM + "programs up to a size on the real interpreter against a reference interpreter",
  QB + "Outside the domain: return within the deferred expression itself, panic(nil).")

P("C33", "Script variables are lexically scoped and closures share them",
  "Reading a name in a function finds the function's own variable, else that of the innermost enclosing function that has one, else the builtin of that name, and fails otherwise; once a function has read an outer variable, assigning to the name changes that variable. Assigning a name the function hasn't read makes a variable of its own if no enclosing function has one and fails if one has. Names that begin with an underscore are private to their function. Parameters are variables of their function and hide outer ones. A closure keeps its surrounding variables alive, sees later changes, and shares them with every other closure of the same activation; every activation has variables of its own. Blocks (if, switch, for) have no variables of their own. unset removes a variable of the function. A variable with the name of a builtin hides the builtin from then on.",
  ["programs"], "all programs up to a size that read, assign, shadow and unset variables in nested functions",
  QL + "which variable a name refers to depends on the history of assignments in all enclosing activations.",
  ["tpl/qlang/cl/qlang.go", "tpl/qlang/cl/function.go"],
  [("variables", "tpl/qlang/cl/function.go getVars, getRef, Unset"), ("closures", "tpl/qlang/cl/function.go Function, Call")],
  ["Qlang.Var", "traced calls"],
  ENUM + "programs up to a size on the real interpreter against a reference interpreter",
  QB)

P("C34", "Lists and maps in scripts",
  "List and map literals have the elements given, in order, with the element type their elements share (and mixed types otherwise); set, get, indexing, append, delete, slicing, len and copying through assignment behave as on Go slices and maps: aliases and sub-slices share elements, append doesn't change what the old list shows, a missing map key reads as undefined and setting undefined deletes, an index out of range or a value of the wrong type fails and leaves the container unchanged as far as it had not been set. Containers passed to functions are shared with the caller, and containers can be nested and of any size.",
  ["programs", "histories"], "all histories of container operations up to a length",
  QL + "aliasing between variables is a matter of the history of operations.",
  ["tpl/qlang/lib/builtin/builtin.go", "tpl/qlang/cl/qlang.go"],
  [("containers", "tpl/qlang/lib/builtin/builtin.go Set, Get, Append, SubSlice, Delete"), ("literals", "tpl/qlang/lib/builtin")],
  ["Qlang.Var", "Qlang.SafeEval"],
  "explicit-state exploration of all operation histories on the real interpreter against a reference interpreter",
  QB + "Whether a list shares memory with the list it was appended to, and its capacity, aren't specified.")

P("C35", "Classes and objects in scripts",
  "new C(args) makes an object with fields of its own and calls _init with the arguments; a method called on an object gets that object as this (also when the method was stored in a variable first), can call the other methods and change fields, and methods of the class are shared by all its objects. Fields are per object, a field with the name of a method is refused, and reading a member that doesn't exist fails. Each evaluation of a class expression makes a class of its own whose methods see the variables around it. Wrong numbers of arguments, members of values that have none and new of something that is no class fail.",
  ["programs", "histories"], "all histories of operations on two objects, all subsets of methods, classes made by functions",
  QL + "this and the fields are run-time state shared between methods and closures.",
  ["tpl/qlang/cl/class.go", "tpl/qlang/cl/function.go"],
  [("classes and objects", "tpl/qlang/cl/class.go"), ("binding of this", "tpl/qlang/cl/class.go, member reference")],
  ["Qlang.Var", "traced calls"],
  "explicit-state exploration of all operation histories on the real interpreter against a reference interpreter",
  QB + "Arguments for a class without _init aren't specified.")

P("C36", "Engines survive failing scripts and don't influence each other",
  "An engine gives the same outcome, the same calls and the same variables for a source as a fresh engine with the same variables would, whatever was evaluated on it before and whether that succeeded, failed at run time, panicked, or was malformed; a malformed source has no effect. Functions defined by an earlier source keep working. A run-time error names the file and line it happens at. The result of an evaluation (Ret) is the value of its last expression, delivered once. Two engines share nothing. Exec and Eval differ from SafeExec and SafeEval only in that a failure may surface as a panic and defers of the source itself are left alone. Errors name the file and line given.",
  ["histories"], "all histories of sources on one or two engines",
  QL + "after an error the stack, the deferred calls, the panic in progress and the compiled code of the failed source are still there.",
  ["tpl/qlang/engine.go", "tpl/qlang/cl/qlang.go", "tpl/qlang/cl/function.go"],
  [("evaluation and recovery", "tpl/qlang/engine.go Exec, SafeExec, SafeEval"), ("state of a machine", "tpl/qlang/cl/qlang.go Interpreter, Stack")],
  ["Qlang.SafeEval", "Qlang.Ret", "Qlang.Var"],
  "explicit-state exploration of all histories of sources on the real engines against reference machines",
  QB + "Effects of the well-formed beginning of a malformed source aren't specified (the malformed sources used have none).")

P("C37", "Go values and functions in scripts, script functions in Go",
  "A Go function or method made available to scripts is called with exactly the arguments given, converted only where the parameter asks for it (integers and float32 to a float64 parameter, nil to the nil of an interface or pointer parameter); too many, too few or unsuitable arguments fail without calling it; it gives its result (integers as int, float32 as float64), a list of several results, or nil if it has none. Fields and methods (of values and pointers, name capitalized) and map entries of Go values are found by member access, methods without parameters of types registered with SetAutoCall are called at once, and a missing member fails. A script function called back from Go runs with its own variables and returns its value. Variables can be set and read from Go between evaluations. Imported tables are available as names or as members of their module, importing a name that exists already is refused, and in safe mode the table's _initSafe gets to change it before.",
  ["configurations", "inputs", "histories"], "all signatures x argument tuples; all members; all histories of evaluations, variable changes and calls",
  QL + "the bridge is reflection code whose cases are types, arities and variadic forms.",
  ["tpl/qlang/cl/qlang.go", "tpl/qlang/cl/class.go", "tpl/qlang/spec/spec.go", "tpl/interpreter.util/call.go"],
  [("calling Go functions", "tpl/interpreter.util/call.go VCall, validateType; tpl/qlang/cl/qlang.go castVal, PushRet"), ("members", "tpl/qlang/cl/class.go MemberRef"), ("import tables", "tpl/qlang/spec/spec.go Import")],
  ["arguments the Go function saw", "Qlang.SafeEval", "Qlang.Var", "Function.Call"],
  ENUM + "signatures and argument tuples and of histories on the real interpreter against an independent table",
  "Outside the domain: nil for slice, map or func parameters, results of type uint8 and of named types, what an Import that fails has imported.")

P("C38", "Interpreters written in the scripting language",
  "A script object with grammar, fntable and stack gives an interpreter (interpreter(obj)) whose evaluation of a source calls the script functions of the table at the matches of their marks, with the token values, counts, code and engine the marks ask for, in order; evaluating stored code later evaluates just that piece of the source. The result is the same whatever was evaluated before on this or another such interpreter, failing or malformed sources (also those whose stack or functions fail in any way) give an error to the script instead of ending it, and a definition that isn't complete or is inconsistent is refused with an error.",
  ["programs", "inputs", "histories"], "all token strings and sentences of a calculator written in the language; all histories on two of them; wrong definitions",
  QL + "two interpreters are nested and share reflection code, stack and error handling.",
  ["tpl/qlang/cl/interpreter/interpret.go", "tpl/interpreter/interpreter.go"],
  [("engine from a script object", "tpl/qlang/cl/interpreter")],
  ["results given to the script", "errors given to the script"],
  ENUM + "sources and histories on the real nested interpreters against an independent evaluator",
  "Octal and hexadecimal literals for Int and Float marks, and what a failing source leaves on the script's own stack, aren't specified.")

P("C39", "tplconv converts every input file with the grammar of its extension",
  "The tplconv command takes its input files in order, each with the grammar ~/.tplconv/input/EXT.tpl of its (last) extension, and writes the extracted document in the output format, JSON by default or a template of ~/.tplconv/output given by name, to the standard output, one conversion after the other, or with -ext to a file of its own beside the input, whose former content it replaces. It changes no other file. It stops with exit code 2 and a message at the first file that can't be converted (missing, without extension, of an unknown format, not matched by the grammar, or with a malformed grammar, an unknown output format or template), after which no file is converted, with exit code 1 when no file is given, and ends with exit code 0 and no message otherwise.",
  ["inputs", "configurations", "histories"], "all sequences of input files x output formats x extensions x states of the output files before",
  "No existing test runs the command; what it does depends on a sequence of files, flags, and what the file system holds.",
  ["tpl/cmd/tplconv/tplconv.go", "tpl/extractor/extractor.go"],
  [("processing of a file", "tpl/cmd/tplconv/tplconv.go processFile"), ("formats", "tpl/cmd/tplconv/tplconv.go outInternals, outTemplates, printJson, makeHtmlTempl")],
  ["exit code", "standard output and standard error", "files in the working directory"],
  ENUM + "file sequences, formats and file-system states, each a run of the real command in a scratch directory, compared with a model",
  "The layout of the JSON, what a failed conversion leaves in its output file, and marks of the grammar that the extractor doesn't know (a panic, with exit code 2) aren't judged.")

P("C40", "The calculator programs answer every line on its own",
  "Each of the three calculator programs (calculator, cmplxcalc, ratcalc) reads lines (of up to 64 KB) from its standard input until the end. For a line that is an expression with a value it writes '> ', the value and an empty line to the standard output, in the order of the lines; a complex value without imaginary part is written as a real number, a rational integer without denominator. For any other line that isn't blank it writes an error message to the standard error and nothing to the standard output; a blank line is passed over. What a line gives doesn't depend on the lines before it, whether they failed or not, nor on the form of the line ends, or on one missing at the end. The programs end with exit code 0.",
  ["inputs", "histories"], "all sequences of lines x line ends",
  "No existing test runs the programs; an error can leave something behind that shows in the answer of a later line only.",
  ["tpl/examples/calculator/main.go", "tpl/examples/cmplxcalc/cmplx_calc.go", "tpl/examples/ratcalc/bigcalc.go", "tpl/number/number.go", "tpl/cmplx/cmplx.go", "tpl/rat/big.go"],
  [("reading lines and answering", "eval and main of the three programs")],
  ["standard output", "standard error", "exit code"],
  ENUM + "sessions, each a run of the real program, compared with the reference evaluators line by line",
  "The wording of error messages isn't judged, only that a failing line has one and that there is none otherwise.")
