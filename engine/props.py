"""What each check decides, in words (MANIFEST and evidence)."""
LOCK = ("lock-step (product) abstract interpretation of every parser function's MIR against a reference grammar program, "
        "over token classes, calls between productions cut by assume/guarantee")
_P = "Decided per production of the parser on the compiler's MIR: every path of the implementation is compared with the reference " \
     "production from ECMA-262 under all token classes, context flags and line-terminator states; "
TECH, NOTE, NA, RULE = {}, {}, {}, {}


def c(i, tech, note, rule):
    TECH[i], NOTE[i], RULE[i] = tech, note, rule


c("C09", LOCK, _P + "the lexical goal passed at each token advance must agree wherever the next token can begin with a slash or }; the scanner side "
  "(slash under each goal, template continuation by brace nesting) is decided by the scanner product.",
  "each token is scanned under the same goal (Div / RegExp / template tail) as in the reference wherever the token can matter")
c("C10", LOCK, _P + "same tokens, same sub-productions, same node with the same field roles, same rejections.",
  "statement productions: accepted tokens, nested productions and resulting node term equal those of the reference")
c("C11", LOCK, _P + "same tokens, same sub-productions, same node with the same field roles, same rejections.",
  "expression productions: accepted tokens, nested productions and resulting node term equal those of the reference")
c("C12", LOCK, _P + "precedence levels are enumerated; the operand structure must be that of precedence climbing with the ECMAScript levels.",
  "for every level 1..10: which operators continue the expression, at which level the right operand binds, what node results")
c("C13", LOCK, _P + "functions, methods, classes, arrows.", "function/class/method productions equal the reference, including kind/static/computed flags")
c("C14", LOCK, _P + "list contents are compared element by element with loops closed by a fixpoint over abstract states.",
  "literal productions: every element, hole, spread, property, quasi kept once, in order, in its role")
c("C15", LOCK, _P + "binding productions and their callers.", "binding/parameter productions equal the reference")
c("C16", LOCK, _P + "import/export productions.", "module item productions equal the reference")
c("C17", LOCK, _P + "context flags at each call of a production and after each return must be those of the reference.",
  "context flags at every nonterminal call, at every return, and on every flag-dependent decision equal the reference's")
c("C18", LOCK, _P + "assignment targets and cover conversions.", "assign_target_type and every use of it equal the reference")
c("C19", LOCK, _P + "line-terminator facts are part of the abstract state.", "every decision that reads the line-terminator flag equals the reference's")
c("C20", LOCK, _P + "start markers are tracked as token indices.", "start marker of each node is that of the construct's first token; marker stack balanced")
c("C29", LOCK, _P + "markers are tracked as the start or end of a token index; the scanner's position after each token is decided by the scanner product.",
  "end marker of each node is the end of the last token consumed when the reference builds the node; the recorded end of the last token is up to date at every call and return")
c("C21", LOCK, _P + "AST-to-AST conversions are compared over symbolic nodes.", "conversion functions equal the reference conversions on every node shape")
c("C23", LOCK, _P + "entry points are composed with the parser's constructor.", "entry productions equal the reference, under the initial context")
c("C24", LOCK, "Decided for errors raised by the parser: position fields come from one token, the rejected one where the reference names it, and "
  "the text is that token's. Errors passed through from the scanner keep their value.",
  "on every path where both sides reject: line/col are one token's, which is the offending one; unexpected-token text is its text")
c("C25", LOCK, _P + "each lookahead must restore scanner, current token and line-terminator flag before the next decision.",
  "after every lookahead the current token is the last scanned one and the line flag is its own")
SCAN = ("lock-step (product) abstract interpretation of the scanner's MIR, Scanner::next entered with symbolic input characters, "
        "against a reference lexical grammar, over character classes, closed by a fixpoint")
_S = "Decided on the compiler's MIR of Scanner::next and everything it calls: for every input (characters split into the classes the code and " \
     "the lexical grammar of ECMA-262 distinguish, loops closed by a fixpoint over generalised states) the scanner must accept, reject, " \
     "consume and return what the reference does; "
c("C01", "panic-freedom by abstract interpretation of MIR: every panic, assert, unwrap and index on every explored path of scanner, parser and entry points",
  "Every function reachable from parse_script and parse_module is interpreted on all paths (characters, tokens, flags and nodes symbolic); "
  "a panic terminator reached under satisfiable facts is reported. Stack exhaustion and out-of-memory are outside.",
  "no path reaches a panic, a failing assert (overflow, bounds) or a failing unwrap")
c("C02", "progress analysis in the product automata: a cycle of abstract states without consumption is a violation",
  "Loops are closed by a fixpoint over abstract joint states; a state that recurs along a path on which neither side consumed a character, a "
  "token or a sub-production is reported, as is a loop without any event. Recursion between productions is covered because each "
  "production is compared with a reference that consumes before it recurs, under the same position obligations.",
  "no abstract state recurs along a path without consumption")
c("C03", SCAN, _S + "here: trivia, names, digits.", "white space, line terminators, comments, identifier and digit characters are consumed exactly where the reference has them")
c("C04", SCAN + "; table interpretation of Punctuator's text function", _S + "here: punctuators and their spellings.",
  "each punctuator is scanned by longest match; each variant has its own spelling")
c("C05", SCAN, _S + "here: words. The parser side (which words are names, where contextual words matter) is decided per production.",
  "word tokens have the class and text of the reference; productions treat words as the reference does")
c("C06", SCAN, _S + "here: which tokens are rejected, and where accepted ones end.", "a token is rejected iff the reference rejects it, and has its extent")
c("C07", SCAN, _S + "here: escapes in names, strings and templates. Surrogate escapes are rejected by both sides.",
  "every escape yields the code point, and consumes the characters, of the reference")
c("C08", SCAN, _S + "here: numbers. The value is compared as a term (parse of the digits, or digits in a radix), not as a double.",
  "numeric tokens have the extent, digits and radix of the reference")
c("C22", "interpretation of every Serialize impl's MIR against an ESTree schema, variant by variant",
  "Each node type's (derived or written) Serialize impl is interpreted for each variant with symbolic fields, serde's serializer interface "
  "recorded; the type tag, key set and which field each key holds must be those of the schema.",
  "type tag, keys and key contents of every variant equal the schema's; untagged unions are written as what they hold")
c("C28", "effect analysis over the call graph of the type-checked program (MIR)",
  "Every function reachable from the entry points (calls, function values, closures, trait implementations, serialisers, destructors) is "
  "searched, on its live blocks, for uses of mutable or shared statics, thread-local state, the environment, clock, files, network, "
  "processes, threads and standard streams, for address-to-integer casts and for iteration over hash tables. Dependencies outside the "
  "workspace (std, serde, ucd, wasm-bindgen) are judged by the path called. Lazily initialised constants are allowed.",
  "no reachable call site or static use reads or writes anything but the source text and values made from it")
for _i, _r in {
               "C26": "correct rounding quantifies over runtime doubles computed by the standard library; no static argument in reach bounds it",
               "C27": "these early errors are not implemented by the parser at all; there is nothing in the source a static rule could check"}.items():
    NA[_i] = _r
EXPLAIN = {i: TECH[i] + ". " + NOTE[i] for i in TECH}
ASSUME = ["rustc's MIR for the nightly toolchain has the semantics of the stable build",
          "std library functions behave as their models in engine/models.py state",
          "the reference productions in spec/ transcribe ECMA-262 with the deviations listed in DESIGN.md"]
