#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept so that the statements can be edited in one readable place)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": hook}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})

LEX = "ratel/src/lexer/mod.rs"; LAB = "ratel/src/lexer/labels.rs"; UT = "ratel/src/lexer/util.rs"; TOK = "ratel/src/lexer/token.rs"

p("L01", "Lexing is memory safe, always advances, and ends exactly at the end of text",
  "For every UTF-8 text, producing tokens never reads a byte beyond the terminator of the text, and every token, identifier name and template chunk handed out is a slice of that text that starts and ends on character boundaries, in source order and without overlap. Every step short of the end of the text consumes at least one character, so the end is always reached; once it is reached, further requests keep reporting the end of the program at the same position. A literal or block comment left open at the end of the text is reported as an unexpected end, never as a complete token.",
  ["inputs", "histories"], "all valid UTF-8 texts (a NUL character ends the text), and all sequences of lexer requests the parser can make on them",
  "The lexer reads through a raw pointer and relies on a terminating byte; unit tests lex a few dozen short well-formed strings, and an over-read or a split character passes silently.",
  [LEX, LAB, UT], [("byte handler table and handlers", LEX+": BYTE_HANDLERS, EOF..TPL"), ("read_byte/bump/next_byte", LEX+": impl Lexer"), ("slice_source/slice_from/read_char", LEX+": impl Lexer"), ("read_token loop", LEX+": Lexer::read_token"), ("read_template_kind, read_regular_expression, read_accessor", LEX+": impl Lexer")],
  ["ratel::lexer::Lexer: token, loc(), token_as_str(), accessor_as_str(), quasi"],
  [("index/token_start/accessor_start", "byte positions within the NUL-terminated buffer", LEX+": struct Lexer")])
p("L02", "Every punctuator is read by longest match",
  "At every position of every text where a punctuator starts, the token produced is the longest JavaScript punctuator that the following characters spell, and the lexer stops right behind it. A sequence that spells no punctuator is reported as an unexpected token.",
  ["inputs"], "all texts and all positions where a punctuation character starts a token, including the very end of the text",
  "There are 50 punctuators with shared prefixes and any continuation may follow each; tests check each spelling once, mostly followed by a space.",
  [LEX, TOK], [("punctuator handlers SEM..PRC, PRD", LEX+": const handlers"), ("dispatch table", LEX+": BYTE_HANDLERS")],
  ["ratel::lexer::Lexer: token, loc()"])
p("L03", "Words are keywords only as a whole, and property names after a dot never are",
  "A word is the longest run of identifier characters; it is reported as a keyword or literal word exactly if the whole run spells one of the reserved words, and as an identifier otherwise, whatever it starts with or continues as. Any word that follows a dot is a property name, also when it spells a reserved word.",
  ["inputs"], "all words of any length, ASCII or not, at any position in any text",
  "A hand-unrolled matcher per first letter decides this; tests cover each keyword alone but not words that extend, shorten or deviate from one at any position.",
  [LAB, UT, LEX], [("match_label! tries L_B..L_Y", LAB), ("legal_in_label table", UT), ("read_accessor and its table", LEX+": Lexer::read_accessor"), ("UNI handler", LEX)],
  ["ratel::lexer::Lexer: token, token_as_str(), accessor_as_str()"])
p("L04", "Literals, regular expressions and comments end where JavaScript ends them",
  "String, number, template and regular expression literals extend exactly as far as their grammar says: a string reaches to the next quote of its kind that is not escaped, escapes never end a string or template, a slash inside a character class never ends a regular expression, and a number takes its radix prefix, fraction and exponent but nothing behind them. Comments produce no token: a line comment reaches to the end of its line, a block comment to the first closing mark, and the token after it is read as if the comment were blank space.",
  ["inputs"], "all texts and all literals and comments of any length in them",
  "The extent of a literal is decided by unbounded (partly unrolled) loops; tests cover a handful of short literals per kind.",
  [LEX], [("QOT, TPL, ZER, DIG, PRD, SLH handlers", LEX), ("read_float, read_scientific, read_binary, read_octal, read_hexadec", LEX), ("read_template_kind, read_regular_expression", LEX)],
  ["ratel::lexer::Lexer: token, loc(), quasi, read_template_kind(), read_regular_expression()"])
p("L05", "Line breaks between tokens always allow semicolon insertion",
  "A semicolon can be inserted before a token exactly if the token is a closing brace, a closing parenthesis or the end of the program, or if at least one line break lies between it and the previous token, no matter what blank space and comments surround or contain that line break. A semicolon token is always reported as an explicit one.",
  ["inputs"], "all sequences of blank space, line breaks and comments of any length between any two tokens",
  "Tests put one line break between statements; comments and mixed blank space in arbitrary order are not enumerated.",
  [LEX], [("asi flag set by read_token, EOF, SEM, PNC, BEC, SLH", LEX), ("consume resets the flag", LEX+": Lexer::consume")],
  ["ratel::lexer::Lexer::asi()"], [("asi", "whether a semicolon may be inserted before the current token", LEX+": struct Lexer")])

NEST = "ratel/src/parser/nested.rs"; PEX = "ratel/src/parser/expression.rs"; PST = "ratel/src/parser/statement.rs"; PFN = "ratel/src/parser/function.rs"; PMOD = "ratel/src/parser/mod.rs"
OPF = "ratel/src/ast/operator.rs"
p("O01", "Operators group by JavaScript precedence and associativity",
  "The operands of every unary, binary, conditional, assignment, comma, call and member operator in an expression are exactly those that the JavaScript precedence table assigns to it, however operators are mixed and nested. Operators of equal precedence group to the left, except that exponentiation, assignment and the conditional operator group to the right; parentheses override both.",
  ["programs"], "all expressions over all operators and all nesting depths",
  "With some 40 binary operators there are over a thousand ordered pairs and unbounded mixes; tests check about twenty pairs.",
  [NEST, PEX, OPF], [("binding power lookup tables", NEST+": bp!(ANY..B15)"), ("binary!/assign!/postfix! handlers and the level each parses its right operand at", NEST), ("nested_expression loop", NEST), ("prefix_expression", PEX), ("OperatorKind::binding_power", OPF)],
  ["ratel::parse -> Module::body()"])
p("O02", "An operator keeps its identity from source to output",
  "Every operator that is read from a program is recorded as the operator its spelling stands for, and is written back with that same spelling; the classification of an operator as prefix, infix or assignment, and its precedence, are those of JavaScript (`...` and `=>`, which JavaScript does not count as operators, are kept as a prefix and an infix operator; `**` shares the level of `*` and groups to the right).",
  ["inputs"], "all operator tokens and all operators",
  "Tests print some operators in minified mode; the parallel tables (token to operator, operator to text, precedence, category) are not compared with each other in full.",
  [OPF, NEST, PEX], [("OperatorKind::from_token / as_str / binding_power / prefix / infix / assignment / category", OPF)],
  ["ratel::ast::OperatorKind", "ratel_codegen::codegen"])
p("P01", "Parsing any text returns, with a program or with errors that point into the text",
  "For every text, parsing terminates without a crash and returns either a program or at least one error. Every error's position lies within the text on character boundaries, and the error quotes exactly the text between its start and its end. Texts with unbalanced brackets, or with a literal or comment that is still open where the text ends, are always rejected.",
  ["inputs"], "all UTF-8 texts, well-formed or not, of bounded nesting depth",
  "Tests parse a few hundred well-formed snippets and hardly any malformed ones; termination and absence of crashes range over all texts.",
  [PMOD, PEX, PST, PFN, NEST, "ratel/src/parser/macros.rs", "ratel/src/parser/error.rs", LEX],
  [("Parser::parse, statement loop", PMOD), ("expect!/allow!, error()", "ratel/src/parser/macros.rs, "+PMOD), ("list loops of blocks, arguments, properties, parameters, cases", "ratel/src/parser"), ("Lexer::invalid_token", LEX)],
  ["ratel::parse"])
p("P02", "A program's meaning does not depend on its layout",
  "Blank space, line breaks and comments between tokens, redundant parentheses around expressions, and semicolons that semicolon insertion would supply, never change the program a text is parsed to. In particular a line break after return, break, continue or before a postfix operator ends the statement, and anywhere else inside an expression it does not.",
  ["programs", "inputs"], "all programs in the supported language and all layouts of each",
  "Tests fix one layout per construct; the product of constructs and layouts is unbounded.",
  [PST, PMOD, PEX, NEST, LEX], [("expect_semicolon and asi checks", PST), ("BindingPower::handler asi check", NEST), ("blank space and comment handling", LEX), ("paren_expression", PEX)],
  ["ratel::parse -> Module::body()"])
p("P03", "Every program is parsed to the tree its grammar assigns, and no other text is",
  "A text is accepted exactly if its tokens form a program of the supported JavaScript grammar, and the tree it is parsed to is the one the grammar assigns: each construct with all of its parts, in source order, each in its own place, with names, literals, operators and flags as written.",
  ["programs", "inputs"], "all texts: programs of any size and nesting, and texts that are none",
  "Tests parse a few hundred snippets; a construct whose part is dropped, swapped, accepted where it may not stand or rejected where it may, in some combination of optional parts, goes unnoticed.",
  [PEX, PST, PFN, NEST, PMOD, "ratel/src/parser/macros.rs"], [("expression and statement handler tables", PEX+", "+PST), ("list loops of blocks, arguments, properties, parameters, cases, specifiers", "ratel/src/parser"), ("Parse impls of functions, classes, members, patterns", PFN+", "+PMOD), ("params_from_expressions, pattern_from_expression", PEX+", "+PMOD)],
  ["ratel::parse -> Module::body()"])

GL = "ratel-codegen/src/lib.rs"; GE = "ratel-codegen/src/expression.rs"; GS = "ratel-codegen/src/statement.rs"; GF = "ratel-codegen/src/function.rs"
p("G01", "Generated code parses back to the same program",
  "For every program that parses, the code generated from it, minified or pretty, parses again and yields the same program, up to empty statements in statement lists: nothing is dropped, reordered, regrouped or merged with its neighbour.",
  ["programs", "configurations"], "all programs that parse, in both output modes",
  "Codegen tests print some 150 snippets; parenthesisation and token adjacency depend on unbounded combinations of nested constructs.",
  [GL, GE, GS, GF, PEX, PST, PFN, NEST], [("ToCode impls", "ratel-codegen/src"), ("write_expression and binding_power", GL+", ratel/src/ast/expression.rs"), ("write_list/write_block/write_body", GL)],
  ["ratel_codegen::codegen", "ratel::parse"])
p("G02", "Minified and pretty output differ only in blank space",
  "For every program, the minified and the pretty output consist of the same tokens in the same order; they differ only in blank space between tokens, and pretty output never has blank space where it would change the program.",
  ["programs", "configurations"], "all programs that parse",
  "Tests compare few constructs in pretty mode at all.",
  [GL, GE, GS, GF], [("Generator trait and its two implementations", GL), ("write_pretty / new_line / indent / dedent", GL)],
  ["ratel_codegen::codegen(minify = true / false)"])

p("G03", "Generated code is valid UTF-8, written within its buffer",
  "For every program, in both output modes, the string codegen returns is valid UTF-8, and while it is built nothing is written outside of the buffer that holds it and nothing read outside of the text that is copied: the generator's unchecked operations are only used where their conditions hold.",
  ["programs", "configurations"], "all programs that parse, in both output modes",
  "Tests print ASCII snippets that fit the initial buffer; an overrun of a byte or a half character goes unnoticed.",
  [GL, GE, GS, GF], [("extend_from_slice", GL), ("consume, write_byte, write_bytes", GL), ("quote_for and every writer of text", "ratel-codegen/src")],
  ["ratel_codegen::codegen"])
VL = "ratel-visitor/src/lib.rs"; VE = "ratel-visitor/src/expression.rs"; VS = "ratel-visitor/src/statement.rs"; VF = "ratel-visitor/src/function.rs"
p("V01", "Traversal brackets every node and scope correctly",
  "For every program, a visitor sees every parent it is told about removed again in exact reverse order, and every entered scope left again; each node with children is on the stack of parents precisely while its children are visited, and nothing is left on either stack at the end.",
  ["programs"], "all programs that parse",
  "Two tests count parents and scopes of two tiny programs; a missing push or pop in the arm of any other construct goes unnoticed.",
  [VL, VE, VS, VF], [("push_parent/pop_parent around visit_with", VE+", "+VS), ("on_enter_scope/on_leave_scope", VS+", "+VF)],
  ["ratel_visitor::Visitor callbacks"])
p("V02", "Every variable occurrence is reported once, as declaration or as use, in scope",
  "For every program, each name bound by a variable declaration, parameter, function or class statement, catch clause, or import is reported exactly once as a declaration, and each other occurrence of a variable name exactly once as a use; property names, labels and keywords are reported as neither. Reports come in source order, with parameters inside the scope of their function.",
  ["programs"], "all programs that parse",
  "Tests look at a dozen programs; patterns, imports, loops, classes and their combinations are not covered.",
  [VL, VE, VS, VF], [("on_reference_use / on_reference_declaration calls", VL+", "+VE+", "+VF+", "+VS)],
  ["ratel_visitor::Visitor::on_reference_use / on_reference_declaration"])
p("V03", "Traversal visits every node once, in source order, with its own callback",
  "For every program, a visitor is called exactly once for every expression, and for every statement except empty and debugger statements, with the callback for its kind and with that very node; a node is reported before its children, and children in source order. Every statement list is reported once, before its statements.",
  ["programs"], "all programs that parse",
  "No test records the sequence of callbacks; a skipped, repeated or swapped child is invisible to the existing tests.",
  [VL, VE, VS, VF], [("visit_with of StatementNode and ExpressionNode", VS+", "+VE), ("visit_with of each construct", "ratel-visitor/src")],
  ["ratel_visitor::Visitor callbacks"])
SC = "ratel-transformer/src/scope.rs"
p("S01", "Scope analysis mirrors the scopes of the program",
  "For every program, scope analysis yields one scope per function, block, catch clause and switch body, nested exactly as in the source, of the right kind and in source order, with parent and child links agreeing. Each scope lists exactly the names declared and the names used directly in it, and records whether the this keyword is used directly in it.",
  ["programs"], "all programs that parse",
  "One test analyses one small function.",
  [SC, VL, VS, VF, VE], [("ScopeAnalyzer callbacks", SC), ("analyze", SC)],
  ["ratel_transformer::scope::analyze"], [("current", "innermost scope entered", SC+": ScopeAnalyzer")])
TR = "ratel-transformer/src/es2015/arrow.rs"
p("T01", "The ES2015 transformation turns every arrow function into a plain function",
  "For every program, after transform() each arrow function, wherever it stands (in another arrow function, in a parameter's default, in a class), has become an unnamed function expression that is no generator and has the same parameters and the same body; a body that was an expression has become a block that returns that expression. Nothing else of the program has changed.",
  ["programs"], "all programs that parse",
  "No test calls transform().",
  [TR, "ratel-transformer/src/lib.rs", VL, VS, VF, VE], [("TransformArrow", TR), ("TransformerCtxt::swap and alloc_as_loc, transform", "ratel-transformer/src/lib.rs"), ("visit_with of each construct", "ratel-visitor/src")],
  ["ratel_transformer::transform"])
p("E01", "Error messages show the line and column of the error",
  "The message displayed for an unexpected token names the one-based line and column at which the token starts, shows that line with up to two lines around it, numbered correctly, and marks the token's characters right below them; it does so for every position in every text.",
  ["inputs"], "all texts and all token positions in them on character boundaries",
  "One test formats one error in a one-line text.",
  ["ratel/src/error.rs"], [("Display for ParseError", "ratel/src/error.rs"), ("log10", "ratel/src/error.rs")],
  ["Display of ratel::error::ParseError"])
p("A01", "The ESTree export represents every program it is given",
  "For every program that parses, exporting the syntax tree succeeds and yields one object per construct of the source: its ESTree type, each of its parts under that part's field (absent parts null, lists complete and in order, array holes null), its flags, operators and names, for literals their value and raw text, and the start and end that the syntax tree gives the construct.",
  ["programs"], "all programs that parse",
  "Tests export about 150 snippets.",
  ["ratel/src/astgen/mod.rs", "ratel/src/astgen/expression.rs", "ratel/src/astgen/statement.rs", "ratel/src/astgen/function.rs", "ratel/src/astgen/value.rs"], [("SerializeInLoc impls", "ratel/src/astgen"), ("in_loc", "ratel/src/astgen/mod.rs"), ("expression_type", "ratel/src/astgen/expression.rs")],
  ["serde_json::to_value(&Module)"])
p("N01", "Every construct's place lies within the text",
  "For every text that parses, the start and the end of every construct of the syntax tree are positions of the text: on character boundaries, not beyond its end, and the start not behind the end.",
  ["inputs"], "all texts that parse",
  "Tests compare the places of about 150 snippets, all but a few of them ASCII.",
  ["ratel/src/parser/mod.rs", "ratel/src/parser/expression.rs", "ratel/src/parser/statement.rs", "ratel/src/parser/function.rs", "ratel/src/parser/nested.rs", "ratel/src/lexer/mod.rs"],
  [("alloc_at_loc, alloc_in_loc and every call of them", "ratel/src/parser"), ("Lexer::start, end, loc, start_then_consume, end_then_consume", "ratel/src/lexer/mod.rs")],
  ["ratel::parse"])
p("W01", "The WebAssembly entry points report what the library finds",
  "For every text and in both modes: if the text parses, transform returns the code generated for it, generateAST the debug form of its syntax tree and generateASTEstree its ESTree JSON, each compact if minified and indented otherwise; if it does not, all three return \"Error: \" followed by the message of every error, in order, separated by line breaks, each located in that very text.",
  ["inputs"], "all texts",
  "No test calls them.",
  ["ratel-wasm/src/lib.rs"], [("transform, generate_ast, generate_ast_estree, format_errors", "ratel-wasm/src/lib.rs")],
  ["ratel_wasm::transform, generate_ast, generate_ast_estree"])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
