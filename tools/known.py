#!/usr/bin/env python3
"""Writes known_findings.json: the defects repaired in /repo, by commit subject (hashes looked up)."""
import json, os, subprocess
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
log = dict()
for l in subprocess.check_output(["git", "-C", "/repo", "log", "--format=%h %s"], text=True).splitlines():
    h, s = l.split(" ", 1)
    log[s] = h
FIXED = [
    ("C01", "scan \"..\" as two PERIOD tokens instead of an empty ILLEGAL token", "source '..' gave one ILLEGAL token with empty text"),
    ("C03", "insert a semicolon before a general comment followed by a '#' comment", "'a /* c */ # d' with InsertSemis gave no semicolon"),
    ("C04", "report floating-point literals whose exponent has no digits", "'1e', '1e+' scanned as FLOAT without an error"),
    ("C05", "Token.End of a SEMICOLON counted its length twice", "End of a ';' token was one byte too far, and of an inserted one past the source"),
    ("C06", "TokenLen of kinds that are no operator", "TokenLen of some kinds below the operators returned a wrong length or indexed out of the table"),
    ("C12", "compile EOF in a grammar to GrEOF", "EOF in a grammar text never matched"),
    ("C12", "accept the documented TOKEN names of operators in a grammar", "operator token names (ADD, LPAREN, ...) were refused"),
    ("C07", "repetition of a rule that matches nothing never terminated", "*(?X), +(?X), (?X)%(?Y) looped for ever"),
    ("C11", "MatchError.Error panicked for a fail-fast error at the end of input", "A!B on input A: Error() indexed an empty token slice"),
    ("C12", "rules referenced before their definition were missing from Grammars", "a rule used above its definition could not be found for EvalSub"),
    ("C14", "Code of nested lists and of +(+G) had a different meaning", "(a%b)%c printed as a%b%c with another grouping; +(+G) printed as ++G"),
    ("C24", "extractor lost array items interleaved with other tags", "items of an array after another tag replaced the earlier ones"),
    ("C27", "generator emitted tpl.tpl.Repeat1, which doesn't compile", "any grammar with +G"),
    ("C27", "generator emitted broken code for references to grammar variables", "any recursive grammar"),
    ("C27", "generator turned operators like \"++\" and keywords into STRING tokens", "\"++\" or \"if\" in a grammar matched every string literal"),
    ("C27", "generated code ignored StaticCompiler.ScanMode", "InsertSemis was lost"),
    ("C28", "tplgen template imported a package path that doesn't exist", "every generated program failed to compile"),
    ("C18", "ParseFloat read an octal integer out of range as a decimal number", "07777777777777777777777"),
    ("C36", "qlang stack base wasn't restored after a panic in nested code", "for/if body panics, recover in a defer: later calls saw a wrong stack"),
    ("C32", "a panicking deferred call escaped SafeExec and skipped the other ones", "defer fn{panic(1)}() after another defer"),
    ("C36", "recover() returned the panic of an earlier evaluation", "SafeEval that panics, then SafeEval with recover()"),
    ("C34", "qlang set(slice, index, nil) panicked", "x[0] = nil on a slice of interfaces"),
    ("C28", "static interpreter read octal and hexadecimal literals as decimal", "010 gave 10, 0x1F was refused in a generated interpreter"),
    ("C28", "tplgen used the raw text of an interpreted string constant as the grammar", "const grammar = \"doc = IDENT\\n\""),
    ("C28", "tplgen panicked at a declaration of the grammar without a value", "var grammar string"),
    ("C27", "generated code left CompileRet.Grammars empty, so EvalSub found no rule", "EvalSub/EvalCode of any rule of a generated compiler gave ErrNoGrammar"),
    ("C15", "EvalSub of a source text didn't call Init", "second evaluation kept the state of the first"),
    ("C28", "tplgen panicked at a function declared without a body", "func asm(x int) int in the package of the grammar"),
    ("C21", "imaginary literals out of range became infinite", "1e999i gave (0+Infi), while 1e999 is refused"),
    ("C22", "rational calculator read octal literals as decimal", "010 gave 10, while the other calculators give 8"),
    ("C15", "EvalSub of tokens reported left-over input at the first token", "EvalSub(rule, tokens) with something left over named the first token instead of the left-over one"),
    ("C27", "generated compilers panicked without a marker", "a grammar with marks, StaticCompiler without Marker (the dynamic compiler ignores the marks then)"),
    ("C27", "generated code didn't compile for rules named like Go keywords", "rules named type, func, new, ret, tpl, cmplr, nil, _"),
    ("C17", "functions named _ couldn't be called through marks", "interpreter.New panicked with an index out of range for a mark _ (the qlang interpreters and those of tplgen too)"),
    ("C36", "values of deferred calls stayed on the qlang stack and became the result", "Ret() after 'defer t(4); t(5)' gave the value of the deferred call"),
    ("C22", "max and min of nothing handed out a shared rational number", "changing the result of max() changed what every later max() and min() gave, in all calculators"),
    ("C15", "evaluating a text within an action made the outer evaluation lose its source", "an action that calls EvalSub with a text: Source, FileLine and errors of the outer evaluation came from that text"),
    ("C12", "compiling a grammar doesn't depend on the keywords its scanner knows already", "Cl of a grammar whose rule or mark is named like a keyword of a grammar compiled before on the same scanner (also of itself) was refused"),
]
out = {"findings": [], "fixed": []}
for prop, subj, what in FIXED:
    h = log["fix: " + subj]
    out["fixed"].append("fixed: property=%s %s %s (%s)" % (prop, h, subj, what))
KNOWN = [
    {"property": "C15", "status": "known", "case": "failure on \"a + b\\nc + d\", then another text",
     "what": "the error of a failed match, kept and looked at after the matcher was given another text, takes its line and text from that one: errors have tokens, but no source of their own"},
    {"property": "C36", "status": "known", "case": "[\"a = 1\\nf = fn(x) {\\nx.y\\n}\" \"f(7)\"] as \"a.ql\"",
     "what": "a run-time error in a function that an earlier source (a.ql, line 3) defined is reported at a place of the source evaluated last (b.ql:1): tokens have offsets but no source of their own"},
]
out["findings"] = KNOWN
with open(os.path.join(root, "known_findings.json"), "w") as f:
    json.dump(out, f, indent=1)
    f.write("\n")

p = os.path.join(root, "DESIGN.md")
t = open(p).read()
a, b = "<!-- fixed -->\n", "<!-- /fixed -->"
t = t[:t.index(a) + len(a)] + "".join("* %s: %s (%s)\n" % f for f in FIXED) + t[t.index(b):]
open(p, "w").write(t)
