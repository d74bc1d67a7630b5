#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the statements are easy to review)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=()):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [dict(name=a, meaning=b, where=c) for a, b, c in state],
                          "mechanism": [dict(name=a, where=b) for a, b in mech],
                          "observe_at": ["giron::parse_script", "giron::parse_module"], "hook_needed": None}})
PA = "giron/src/parser/parser.rs"; SY = "giron/src/parser/syntax.rs"; SC = "giron/src/scanner/scanner.rs"
RD = "giron/src/scanner/reader.rs"; ES = "giron/src/estree/estree.rs"; CP = "giron/src/codepoint/codepoint.rs"
PU = "giron/src/token/punctuators.rs"; LI = "giron/src/lib.rs"; WA = "giron-wasm/src/lib.rs"; ER = "giron/src/errors/errors.rs"
SPP = "giron/src/span/span.rs"
SAMPLE = "The tests only assert that a handful of snippets and three large library files parse without error; "
p("C01", "No input makes the parser panic",
  "For every source string, parse_script and parse_module return Ok or Err: no explicit panic, failed unwrap, unreachable/unimplemented arm, arithmetic overflow or out-of-range index is ever executed (stack exhaustion by deep nesting and out-of-memory aside).",
  ["inputs"], "every source text, including invalid, truncated and empty ones",
  SAMPLE + "panics hide behind invalid or truncated inputs the tests never contain.", [PA, SY, SC, ES, PU],
  [("every unwrap/panic/unreachable/overflow site", PA), ("scanner and conversion panics", SC), ("token text and punctuator tables", SY)])
p("C02", "Parsing always terminates",
  "For every finite source string, scanning and parsing terminate: every loop and every recursive cycle consumes at least one character or token before it comes round again, end of input ends every loop, and AST conversions only descend into strictly smaller nodes.",
  ["inputs"], "every source text, including texts that end inside any construct",
  SAMPLE + "a loop that does not notice end of input only hangs on an input truncated inside that loop.", [PA, SC, ES],
  [("list loops (until punctuator / until end of file)", PA), ("scanning loops", SC)])
p("C03", "Character classes match ECMAScript",
  "White space, line terminators, decimal/octal/hex digits, identifier start and identifier part characters are classified exactly as ECMAScript defines them: USP and the listed white space, LF CR LS PS as line terminators, ID_Start plus $ and _ as identifier start, ID_Continue plus $ _ ZWNJ and ZWJ as identifier part.",
  ["inputs"], "every Unicode code point",
  SAMPLE + "they touch almost only ASCII.", [CP, SC], [("character class predicates", CP)])
p("C04", "Punctuators use longest match and keep their spelling",
  "Every ECMAScript punctuator is scanned by longest match from its own spelling and every other character sequence is rejected; each punctuator maps to exactly one spelling, so operators in the tree carry the text that was written.",
  ["inputs"], "every punctuator at every position, followed by anything",
  SAMPLE + "no test looks at which operator the tree contains.", [SC, PU, CP], [("punctuator scanning", SC), ("spelling tables", PU)])
p("C05", "Reserved words are told apart from identifiers",
  "A word token is a keyword exactly when it is an ECMAScript reserved word, null/true/false are literals, and every other word - including contextual words such as of, get, set, async, from, static, let-like names - is an identifier that the grammar recognises where it has a special meaning.",
  ["inputs"], "every word at every position",
  SAMPLE + "a contextual word that is tested as the wrong kind of token makes a construct silently unreachable.", [SC, SY, PA],
  [("keyword table", SC), ("contextual keyword tests", PA), ("strict mode reserved words", SY)])
p("C06", "Malformed and unterminated tokens are rejected",
  "An unterminated string, template, regular expression or block comment, a string or regular expression broken by a line terminator, and a numeric literal without its required digits are all reported as errors; well-formed tokens of these kinds are accepted whatever characters they contain and end exactly at their closing delimiter.",
  ["inputs"], "every token text, at every truncation point",
  SAMPLE + "none is truncated inside a token.", [SC], [("token scanning loops", SC)])
p("C07", "Escape sequences decode per ECMAScript",
  "In string literals, templates and identifiers every escape sequence denotes the code point ECMAScript assigns to it (single-character, hexadecimal, \\u and \\u{...}, NUL, legacy octal where allowed, line continuation, identity escapes), malformed ones are rejected, and exactly the characters of the escape are consumed (lone surrogates, which a Rust string cannot hold, aside).",
  ["inputs"], "every escape sequence in every literal kind",
  SAMPLE + "no test looks at a decoded value.", [SC, CP], [("escape scanning", SC), ("single escape table", CP)])
p("C08", "Numeric literals use the right digits and radix",
  "A numeric literal is read with the radix its prefix selects (0x, 0o, 0b, legacy octal, decimal with optional fraction and exponent), exactly the digits valid for that form are consumed, the value comes from exactly those digits in exactly that radix, and the literal ends there.",
  ["inputs"], "every numeric literal form and following character",
  SAMPLE + "no test looks at a numeric value.", [SC], [("number scanning", SC)])
p("C09", "Slash and closing brace are read under the right goal",
  "After a token that can end an expression a slash is division, anywhere an expression may start it begins a regular expression; a closing brace continues a template literal exactly when it matches the template's own ${, and otherwise is a plain brace.",
  ["inputs"], "every token sequence in which / or } follows",
  SAMPLE + "the wrong goal shows only when a slash follows the one construct concerned.", [PA, SC],
  [("lexical goal passed at every advance", PA), ("brace stack", SC)])
p("C10", "Statements become the right ESTree nodes",
  "Every statement form of ECMAScript (block, var/let/const, expression, empty, if, for/for-in/for-of, while, do-while, continue, break, return, with, labelled, switch, throw, try, debugger, directives) is recognised by its grammar, rejected when a required part is missing, and becomes the ESTree node whose fields hold exactly the parsed parts, each in its own role and in source order.",
  ["inputs"], "every statement text", SAMPLE + "no test inspects a tree, so swapped or lost parts go unseen.", [PA, ES],
  [("statement parsing", PA)])
p("C11", "Expressions become the right ESTree nodes",
  "Every expression form (sequence, assignment, conditional, unary, update, call, new, member, super, primary, parenthesised, yield, await, arrow) is recognised by its grammar, rejected when a required part is missing, and becomes the ESTree node whose fields hold exactly the parsed operands, operator and prefix/computed flags, each in its own role and in source order.",
  ["inputs"], "every expression text", SAMPLE + "no test inspects a tree.", [PA, ES], [("expression parsing", PA)])
p("C12", "Operator precedence and associativity are ECMAScript's",
  "Binary and logical operators group by ECMAScript's precedence levels, operators of one level associate to the left, exponentiation associates to the right and binds tighter, assignment and the conditional operator associate to the right, and `in` is an operator only where the grammar permits it.",
  ["inputs"], "every chain of operators of any length",
  SAMPLE + "a wrong grouping still parses.", [PA, SY, PU], [("precedence table", SY), ("precedence climbing", PA)])
p("C13", "Functions, methods and classes become the right nodes",
  "Function, generator, async and arrow functions, and classes with their constructor, static, getter, setter, generator and async methods, are recognised by their grammar and become the ESTree node with the right id, params, body, kind, static/computed flags, superclass and generator/async flags.",
  ["inputs"], "every function and class text", SAMPLE + "most of these modifiers are never exercised.", [PA, ES],
  [("function and class parsing", PA)])
p("C14", "Object, array and template literals keep every element",
  "Object literals keep every property with its key, value, kind and computed/method/shorthand flags, array literals keep every element, hole and spread, and template literals keep every quasi and expression, all in source order and with nothing added, dropped or swapped.",
  ["inputs"], "every literal of any length", SAMPLE + "no test inspects a literal's elements.", [PA, ES, SC], [("literal parsing", PA)])
p("C15", "Binding patterns and parameters are parsed exactly",
  "Binding identifiers, object and array patterns, defaults, holes and rest elements in declarations, parameters and catch clauses follow the ECMAScript grammar - rest only in last position, names reserved in the current context refused - and become pattern nodes holding every element in its role.",
  ["inputs"], "every binding pattern and parameter list", SAMPLE + "only a few simple patterns occur.", [PA, ES], [("binding pattern parsing", PA)])
p("C16", "Imports and exports become the right nodes",
  "Every import and export form is accepted in modules at top level only and becomes the ESTree declaration with the right specifiers (default, namespace, named; imported/local/exported each holding the right name), source and declaration; malformed ones are rejected.",
  ["inputs"], "every import/export text", SAMPLE + "none contains an import or export of most forms.", [PA, ES], [("module item parsing", PA)])
p("C17", "Context-dependent syntax is scoped to its construct",
  "Whether yield, await, return, break, continue, in, let-as-name and strict-mode restrictions apply is decided by the enclosing construct alone: a function, arrow, class or loop sets its own context for exactly its own parts and the surrounding context is back in force afterwards, so illegal return/break/continue/yield/await are rejected and legal ones accepted.",
  ["inputs"], "every nesting of functions, classes, loops and switches", SAMPLE + "a context that leaks shows only in particular nestings.", [PA],
  [("parameter stack and context save/restore", PA)],
  [("params / params_stack", "grammar parameters In, Yield, Await, Return, Default in force", PA), ("ctx", "strict, in_function, in_iteration, in_switch", PA)])
p("C18", "Only valid assignment targets are assigned",
  "The left side of an assignment, compound assignment, update operator and for-in/of head is accepted exactly when it is a simple target (identifier or member expression; eval and arguments refused in strict code) or, for plain = and for heads, a valid destructuring pattern; everything else is an error.",
  ["inputs"], "every expression in target position", SAMPLE + "hardly any invalid target occurs.", [PA, ES], [("assignment target classification", ES), ("assignment parsing", PA)])
p("C19", "Semicolon insertion and restricted productions are exact",
  "A missing semicolon is accepted exactly before a line terminator, before } or at end of input (and after do-while), and a line terminator between tokens is significant exactly where ECMAScript restricts it: after return, break, continue, throw, yield, async, and before postfix ++/-- and =>.",
  ["inputs"], "every placement of line terminators", SAMPLE + "the sources use conventional line breaks.", [PA, SC], [("consume_semicolon and line-terminator tests", PA)],
  [("has_line_terminator", "line terminator between previous and current token", PA)])
p("C20", "Node spans start where the construct starts",
  "Every node's recorded start is the position of the construct's own first token, however the construct was parsed: span bookkeeping opened for a construct is closed exactly once on every successful path and never consumes a surrounding construct's marker.",
  ["inputs"], "every successful parse", SAMPLE + "no test reads a span.", [PA, SPP], [("start_span/end_span pairing", PA)],
  [("marker_stack", "open construct starts", PA)])
p("C21", "Cover grammars convert without losing or adding parts",
  "When an expression turns out to be an assignment pattern or arrow parameter list, the conversion keeps every element in order and role, turns assignments into defaults and spreads into rest elements, accepts rest only last, and rejects every expression that is not a valid pattern.",
  ["inputs"], "every parenthesised list, array and object literal reused as a pattern", SAMPLE + "few patterns are converted.", [ES, PA],
  [("expression to pattern conversions", ES)])
p("C22", "JSON output has the ESTree shape",
  "Every node serialises to an object whose type tag is its ESTree name, with exactly the ESTree keys in ESTree spelling, untagged unions flattened, and no internal bookkeeping keys.",
  ["inputs"], "every tree", "No test serialises a tree.", [ES, PU, "giron/src/token/value.rs"], [("serde attributes", ES)])
p("C23", "Script and module entry points apply the right goal",
  "parse_module parses the whole input as strict module code and labels it module, parse_script parses the whole input as sloppy script code without import/export and labels it script, both only succeed at end of input, and every wrapper exposes the same two functions under the same goals.",
  ["inputs", "configurations"], "every source text and both entry points", SAMPLE + "they never compare the goals.", [LI, PA, WA], [("entry points", LI)])
p("C24", "Errors point at the offending token",
  "A syntax error reported by the parser carries the line and column of the token it rejects and an unexpected-token error carries that token's text.",
  ["inputs"], "every rejected source", "No test looks at an error's position.", [PA, SC, ER], [("error construction", PA)])
p("C25", "Lookahead is transparent",
  "Looking ahead never changes what is parsed afterwards: after a token was examined in advance and put back, the scanner continues exactly as if the token had been scanned for the first time then, with the same tokens, positions, line information and template nesting.",
  ["inputs", "histories"], "every input on which the parser looks ahead", SAMPLE + "lookahead sites are rarely followed by position-sensitive syntax.", [SC, RD, PA],
  [("save_state/restore_state", SC), ("character lookahead buffer", RD)])
p("C26", "Numeric values are correctly rounded",
  "Every numeric literal's value is the double nearest to its mathematical value.", ["inputs"], "every numeric literal",
  "No test looks at values.", [SC], [("str::parse::<f64> and radix accumulation", SC)])
p("C27", "Remaining static-semantics early errors are reported",
  "Programs with duplicate lexical declarations, duplicate or undefined labels, duplicate __proto__, invalid regular expression bodies or undeclared exports are rejected.", ["programs"], "every program with such an error",
  "No test covers them.", [PA], [("not implemented in this code base", PA)])
p("C28", "Parsing depends on the source text alone",
  "The result of a parse - tree, JSON or error - is a function of the source text and the entry point only: it does not depend on earlier or concurrent parses, on the environment, clock, randomised hashing or addresses, and parsing has no effect besides returning it (nothing printed, written or stored).",
  ["histories", "schedules", "configurations"], "every sequence and interleaving of parses in any process",
  "A test sees one process, one order of parses and one hash seed.", [LI, PA, SC, WA],
  [("entry points and everything reachable from them", LI), ("debug logging, switched off by a constant", PA)])
p("C29", "Node spans end where the construct ends",
  "Every node's recorded end is the position just after the construct's own last token (including a semicolon that belongs to it, and excluding what the parser has only looked ahead at, such as a following comma, line break or comment); a node without any token ends where it starts.",
  ["inputs"], "every successful parse", SAMPLE + "no test reads a span.", [PA, SPP], [("end_span/peek_span and the end of the last consumed token", PA), ("position counters", SC)],
  [("prev_end", "end of the last consumed token", PA)])
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
