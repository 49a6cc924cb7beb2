#!/usr/bin/env python3
"""Writes parser_gen.spec: the contracts of the parser's functions, over the grammar of grammar.py."""
import os, re
HERE = os.path.dirname(os.path.abspath(__file__))
import gen_parser as g

out = ["// written by gen_parser_fns.py"]
BASE = ["ensures kept(*old($0), *final($0))", "ensures [P01] ok_errs(*old($0), *final($0))"]
EVEN = "ensures [P01] even(*old($0), *final($0))"
WENT = "ensures [P01] went(*old($0), *final($0))"
SAME = "ensures *final($0) == *old($0)"


def p(rule, *args):
    return "p_%s(old($0).s(), old($0).i()%s)" % (rule, "".join(", " + a for a in args))


def got(x, r="ret"):
    return "%s == got(*old($0), *final($0), %s)" % (x, r)


def heads(*ctx):
    return " && ".join(got(p("head", str(c))) for c in ctx)


# Termination: every call is made with fewer tokens left, or with as many and a lower rank. The ranks order
# functions that may call each other on the same token.
RANK = {}
for _r, _ns in enumerate([
    "paren_expression object_expression array_expression function_expression class_expression template_literal block_statement return_statement throw_statement function_statement "
    "class_statement if_statement while_statement do_statement for_statement try_statement switch_statement import_declaration variable_declaration_statement for_init "
    "unchecked_block_body pattern_array pattern_object rest_element",
    "template_expression tagged_template_expression",
    "nested_*",
    "vx_call_NestedHandler",
    "nested_expression",
    "expression_*",
    "vx_jump_DEF_CONTEXT vx_jump_ARRAY_CONTEXT vx_jump_CALL_CONTEXT",
    "vx_jump_Context",
    "bound_expression context_bound_expression",
    "expression expression_in_context",
    "prefix_expression arrow_function_expression call_arguments new_expression property pattern_assign expression_statement labeled_or_expression_statement vx_get_array",
    "property_list array_elements_array pattern_array_element pattern_param parse_pattern handlers_* statement_*",
    "vx_get_pattern variable_declarator params vx_jump_STMT_HANDLERS",
    "array_elements_pattern variable_declarators statement",
    "parse_statement parse_member",
    "parse_case",
    "raw_block_statement raw_block_case raw_block_member for_in_statement for_of_statement",
    "block_body block_case block_member",
    "parse_function_empty parse_function_optional parse_function_mandatory parse_class_optional parse_class_mandatory",
    "parse_method",
]):
    for _n in _ns.split():
        RANK[_n] = _r


def rank(name):
    n = name.split("::")[-1]
    return RANK.get(n, RANK.get(re.sub(r"^(nested|expression|handlers|statement)_.*", r"\1_*", n)))


def ends(me):
    return "decreases rem(%s.s(), %s.i())" % (me, me)


def fn(names, eq=None, labels="P03", req=None, even=EVEN, went=False, extra=(), proof=(), loops=(), ret="ret", base=True, rv=None):
    if isinstance(names, str):
        names = [names]
    for n in names:
        out.append("@fn %s -> %s" % (n, ret))
        if req:
            out.append("    requires " + req)
        for l in (BASE if base else []) + ([even] if even else []) + ([WENT] if went else []):
            out.append("    " + l)
        if eq:
            out.append("    ensures [%s] %s" % (labels, eq))
        for l in extra:
            out.append("    " + l)
        if rank(n) is not None and not re.match("nested_[A-Z]", n):
            out.append("    decreases [P01] rem(old($0).s(), old($0).i()), %dint" % rank(n))
        rules = list(dict.fromkeys(re.findall(r"\bp_(\w+)", eq or ""))) if rv is None or "+" in rv else []
        rules += [r for r in rv or [] if r != "+"]
        rules = [r for r in rules if r not in g.INLINE + g.LEAF]
        proof_ = ["reveal(p_%s);" % r for r in rules] + list(proof)
        if proof_:
            out.append("    proof:")
            for l in proof_:
                out.append("        " + l)
        for k, ls in enumerate(loops):
            out.append("    loop %d:" % k)
            me = "par" if any("*par)" in l for l in ls) else "self"
            for l in ls + ([] if any(l.startswith("decreases") for l in ls) else ["decreases [P01] rem(%s.s(), %s.i())" % (me, me)]):
                out.append("    " + l)


def at(*ks):
    return "(" + " || ".join("old($0).k() is " + k for k in ks) + ")"


def reveal(*rs):
    return []


def loop(rule, rest, brk=True, wrap="", close=None, me="self", b="builder.q@", extra=(), old="old($0)"):
    """what a list loop keeps: the rest of the list, from here, is the rest of the list from the start"""
    inv = "invariant_except_break" if brk else "invariant"
    ls = []
    ls.append("invariant kept(*%s, *%s)" % (old, me))
    ls.append("invariant [P01] ok_errs(*%s, *%s)" % (old, me))
    ls.append(inv + " [P01] even(*%s, *%s)" % (old, me))
    ls.append(inv + " [P03] %s == then(*%s, *%s, p_%s(%s.s(), %s.i(), %s))" % (rule, old, me, rest, me, me, b))
    for e in extra:
        ls.append(inv + " " + e)
    if brk:
        ls.append("ensures [P01] even(*%s, *%s)" % (old, me))
        ls.append("ensures [P03] %s == got(*%s, *%s, %s)" % (rule, old, me, b))
        if close:
            ls.append("ensures [P01,P03] clean(*%s, *%s) ==> %s" % (old, me, close))
    return ls


ENDS = "ensures [P01] old($0).k() is EndOfProgram ==> !clean(*old($0), *final($0))"
O = "O01,P03"
L = "P02,P03"
# ---- basics
fn("Token::is_word", base=False, even=None, extra=["ensures [P03] ret == is_word(*$0)"])
fn("OperatorKind::from_token", base=False, even=None, extra=["ensures [O02,P03] is_assign($0) || is_binary($0) || is_unary($0) ==> ret == Some(operator($0))"])
fn("Expression::is_lvalue", base=False, even=None, extra=["ensures [O01,P03] ret == lvalue(*$0)"])
fn("Loc::new", base=False, even=None, extra=["ensures ret.item == $2", "ensures [N01] ret.start == $0 && ret.end == $1"])
fn("Parser::loc", base=False, even=None, extra=["ensures [N01] placed(ret.0) && placed(ret.1)"])
fn("Parser::in_loc", base=False, even=None, extra=["ensures ret.item == $1", "ensures [N01] placed(ret.start) && placed(ret.end)"])
fn("Parser::alloc", base=False, even=None, extra=["requires [N01] placed($1.start) && placed($1.end)", SAME, "ensures ret == nd::<T>($1.item)"])
fn("Parser::alloc_in_loc", base=False, even=None, extra=[SAME, "ensures ret == nd::<T>(T::mk($1))"])
fn("Parser::alloc_at_loc", base=False, even=None, extra=["requires [N01] placed($1)", "requires [N01] placed($2)", SAME, "ensures ret == nd::<T>(T::mk($3))"])
fn("Parser::asi", base=False, even=None, extra=[SAME, "ensures [P02,P03] ret == asi(old($0).lexer.t())"])
fn("Parser::error", even=None, went=True, extra=["ensures [P01] final($0).errors@.len() == old($0).errors@.len() + 1", "ensures old($0).k() is EndOfProgram ==> final($0).i() == old($0).i()"])
fn("Parser::expect_semicolon", got(p("semi"), "()"), L)
fn("Parser::block_end", got(p("block_end"), "()"), even="ensures [P01] popped(*old($0), *final($0), Br::Brace)", extra=["ensures [N01] placed(ret)"])
fn("Parser::identifier", got(p("ident")))

# ---- expressions
fn("Parser::bound_expression", got(p("head", "0")), O, went=True, rv=[])
fn("Parser::context_bound_expression", got(p("head", "cx($1)")), O, rv=[])
fn("Parser::expression", got(p("expr", "B::thr()", "0")), O, went=True)
fn("Parser::expression_in_context", got(p("expr", "B::thr()", "cx($1)")), O)
fn("Parser::nested_expression", got(p("tail", "$1", "B::thr()")), O,
   loops=[["invariant kept(*old(self), *self)", "invariant [P01] ok_errs(*old(self), *self)", "invariant [P01] even(*old(self), *self)",
           "invariant_except_break [O01,P02,P03] p_tail(old(self).s(), old(self).i(), vx_left, B::thr()) == then(*old(self), *self, p_tail(self.s(), self.i(), left, B::thr()))",
           "ensures [O01,P02,P03] p_tail(old(self).s(), old(self).i(), vx_left, B::thr()) == got(*old(self), *self, left)"]],
   proof=["let ghost vx_left = left;"])
for h, k in (("SEQ", "Comma"), ("COND", "OperatorConditional"), ("ARRW", "OperatorFatArrow"), ("ACCS", "Accessor"), ("CALL", "ParenOpen"), ("CMEM", "BracketOpen"),
             ("TPLS", "TemplateClosed"), ("TPLE", "TemplateOpen"), ("INC", "OperatorIncrement"), ("DEC", "OperatorDecrement")):
    loops = []
    if h == "SEQ":
        loops = [loop("p_sequence(vx_s, vx_i, vx_q)", "sequence", me="par")[:0] + [
            "invariant kept(*old(par), *par)", "invariant [P01] ok_errs(*old(par), *par)", "invariant [P01] even(*old(par), *par)", "invariant par.i() > old(par).i()",
            "invariant_except_break [O01,P03] %s == then(*old(par), *par, map_seq(p_sequence(par.s(), par.i(), builder.q@)))" % "p_op(old(par).s(), old(par).i(), left)",
            "ensures [O01,P03] p_op(old(par).s(), old(par).i(), left) == got(*old(par), *par, nd(Expression::Sequence(SequenceExpression { body: lst(builder.q@) })))"]]
    fn("nested_" + h, got(p("op", "$1")), O, req=at(k), went=True, loops=loops, rv={"SEQ": ["op", "sequence"], "TPLS": ["op"], "TPLE": []}.get(h))
for k, _, h in g.BIN:
    fn("nested_" + h, got(p("op", "$1")), O, req=at("Operator" + k), went=True)
for k, h in g.ASG:
    fn("nested_" + h, got(p("op", "$1")), O, req=at("Operator" + k), went=True)
out.append("@handler NestedHandler")
out.append("    requires vx_pre_NestedHandler(#h, old($0).k())")
for l in BASE + [EVEN, WENT, "ensures [%s] %s" % (O, got(p("op", "$1")))]:
    out.append("    " + l)
out.append("    decreases [P01] rem(old($0).s(), old($0).i()), %dint + #rank" % rank("nested_*"))

fn("Parser::arrow_function_expression", got(p("arrow", "$1.q@")), O, rv=['+'])
fn("Parser::pattern_from_expression", got("with(pattern_of($1), old($0).i())"), "P03", rv=[], extra=["decreases [P01] $1"])
fn("Parser::params_from_expressions", got("with_lst(patterns_of($1.q@, 0, Seq::empty()), old($0).i())"), "P03",
   loops=[["invariant kept(*old(self), *self)", "invariant [P01] ok_errs(*old(self), *self)", "invariant [P01] even(*old(self), *self)",
           "invariant expressions.q@ == vx_q, 0 <= expressions.k@ <= vx_q.len()", "invariant clean(*old(self), *self) ==> self.i() == old(self).i()",
           "invariant_except_break [P03] patterns_of(vx_q, 0, Seq::empty()) == if clean(*old(self), *self) { patterns_of(vx_q, expressions.k@, builder.q@) } else { None }",
           "ensures [P03] patterns_of(vx_q, 0, Seq::empty()) == if clean(*old(self), *self) { Some(builder.q@) } else { None }",
           "decreases vx_q.len() - expressions.k@"]],
   proof=["let ghost vx_q = expressions.q@;"])
fn("Parser::call_arguments", got("map_lst(%s)" % p("arguments")), O,
   loops=[loop("p_arguments(old(self).s(), old(self).i())", "arguments_rest", close="self.k() is ParenClose", old="old(self)")],
   extra=["ensures [P01,P03] clean(*old($0), *final($0)) ==> final($0).k() is ParenClose"], rv=['+', 'arguments_rest'])
fn("Parser::paren_expression", heads(0, 1, 2), "O01,P02,P03", req=at("ParenOpen"), went=True, rv=['+', 'paren'])
fn("Parser::prefix_expression", "ret.operator == $1 && " + got(p("expr", "150", "0"), "ret.operand"), O, rv=[])
fn("Parser::new_expression", got(p("new"), "nd(Expression::Prefix(ret))"), O, req="!(old($0).k() is Accessor)", rv=['+', 'new_arguments'])
fn("Parser::meta_property_expression", req=at("Accessor"), even=None,
   extra=["ensures [P03] ret.meta == $1 && ret.property == nd(old($0).lexer.t().acc)",
          "ensures [P03] clean(*old($0), *final($0)) <==> old($0).lexer.t().acc == %s" % g.lits('"target"'),
          "ensures clean(*old($0), *final($0)) ==> *final($0) == *old($0)"])
fn("Parser::object_expression", heads(0, 1, 2), "P03", req=at("BraceOpen"), went=True)
fn("Parser::property_list", got("map_lst(%s)" % p("properties")), "P03",
   loops=[loop("p_properties(old(self).s(), old(self).i())", "properties_rest", close="self.k() is BraceClose", old="old(self)")],
   extra=["ensures [P01,P03] clean(*old($0), *final($0)) ==> final($0).k() is BraceClose"], rv=['+', 'properties_rest'])
fn("Parser::property", got(p("property")), "P03", went=True, rv=['+', 'property_value'])
fn("Parser::array_expression", heads(0, 1, 2), "P03", req=at("BracketOpen"), went=True)
for which, r in (("array", "array_items"), ("pattern", "pattern_items")):
    fn("Parser::array_elements_" + which, got("map_lst(%s)" % p(r)), "P03",
       rv=["+", r + "_rest"], loops=[loop("p_%s(old(self).s(), old(self).i())" % r, r + "_rest", close="self.k() is BracketClose", old="old(self)")],
       extra=["ensures [P01,P03] clean(*old($0), *final($0)) ==> final($0).k() is BracketClose"])
fn("vx_get_array", got(p("expr", "0", "1")), "P03", rv=[])
fn("vx_get_pattern", got(p("pattern_item")), "P03", rv=[])
fn("Parser::void_expression", base=False, even=None, extra=[SAME, "ensures [P03] ret == nd(Expression::Void)"])
fn("Parser::regular_expression", heads(0, 1, 2), "P03", req=at("OperatorDivision"), went=True)
fn("Parser::template_string", got("map_nd::<TemplateLiteral<'ast>, T>(%s)" % p("template")), "P03", req=at("TemplateClosed"), went=True)
fn("Parser::template_literal", got("map_nd::<TemplateLiteral<'ast>, T>(%s)" % p("template")), "P03", req=at("TemplateOpen"), went=True,
   loops=[["invariant kept(*old(self), *self)", "invariant [P01] ok_errs(*old(self), *self)", "invariant_except_break [P01] even(*old(self), *self)", "invariant self.i() > old(self).i()",
           "invariant_except_break [P03] p_template(old(self).s(), old(self).i()) == then(*old(self), *self, p_template_parts(self.s(), self.i(), quasis.q@, expressions.q@))",
           "invariant_except_break [P03] clean(*old(self), *self) ==> in_quasi(self.s(), self.i())",
           "ensures [N01] placed(end)", "ensures [P01] even(*old(self), *self)",
           "ensures [P03] p_template(old(self).s(), old(self).i()) == got(*old(self), *self, TemplateLiteral { expressions: lst(expressions.q@), quasis: lst(quasis.q@) })"]], rv=['+', 'template_parts'])
fn("Parser::template_expression", heads(0, 1, 2), "P03", req=at("TemplateOpen"), went=True, rv=['head'])
fn("Parser::tagged_template_expression", got(p("op", "$1")), "P03", req=at("TemplateOpen"), went=True)
fn("Parser::function_expression", heads(0, 1, 2), "P03", req=at("Function"), went=True)
fn("Parser::class_expression", heads(0, 1, 2), "P03", req=at("Class"), went=True)

KINDS = {"OBJ": ["BraceOpen"], "CLAS": ["Class"], "FUNC": ["Function"], "IDEN": ["Identifier"], "THIS": ["This"], "NEW": ["OperatorNew"], "PRN": ["ParenOpen"],
         "ARR": ["BracketOpen"], "REG": ["OperatorDivision"], "TRUE": ["LiteralTrue"], "FALS": ["LiteralFalse"], "NULL": ["LiteralNull"], "UNDE": ["LiteralUndefined"],
         "STR": ["LiteralString"], "NUM": ["LiteralNumber"], "BIN": ["LiteralBinary"], "TPLS": ["TemplateClosed"], "TPLE": ["TemplateOpen"],
         "OP": ["Operator" + o for o in g.PREFIX]}
MORE = {"NEW": ["new"], "TPLS": ["template"]}
CALLS = ["OBJ", "CLAS", "FUNC", "PRN", "ARR", "REG", "TPLE"]
for h, ks in KINDS.items():
    lab = {"OP": "O01,O02,P03", "NEW": O, "PRN": "O01,P02,P03"}.get(h, "P03")
    fn("expression_" + h, heads(0, 1, 2), lab, req=at(*ks), went=True, rv=["+"] + MORE.get(h, []) if h not in CALLS else [])
    if h not in ("OBJ", "CLAS", "FUNC", "IDEN"):
        fn("handlers_" + h, got(p("statement")), lab, req=at(*ks), went=True, rv=["+", "expression_statement"] + ([] if h in CALLS else ["head"] + MORE.get(h, [])), proof=["let ghost vx_head = p_head(old(par).s(), old(par).i(), 0);"])
fn("expression_VOID", got(p("head", "1")), "P03", req=at("Comma", "BracketClose"))
fn("expression_SPRD", heads(1, 2), "P03", req=at("OperatorSpread"), went=True)
NEVER = "ensures [P01,P03] !clean(*old($0), *final($0))"
fn("expression_____", " && ".join("(starts_expression(old($0).k(), %d) || %s)" % (c, got(p("head", str(c)))) for c in (0, 1, 2)), extra=[NEVER], went=True, even=None)
fn("statement_____", "starts_statement(old($0).k()) || " + got(p("statement")), extra=[NEVER], went=True, even=None)
JREQ = "$0 == old($1).k()"


def jump(name, eq, labels, went=True, req="$0 == old($1).k()"):
    out.append("@fn %s -> ret" % name)
    out.append("    requires " + req)
    for l in BASE + [EVEN] + ([WENT] if went else []) + ["ensures [%s] %s" % (labels, eq)]:
        out.append("    " + l.replace("$0", "$1"))
    out.append("    decreases [P01] rem(old($1).s(), old($1).i()), %dint" % rank(name))


for c, n in enumerate(("DEF", "ARRAY", "CALL")):
    jump("vx_jump_%s_CONTEXT" % n, got(p("head", str(c))), O, went=c != 1)
out.append("@fn vx_jump_Context -> ret")
out.append("    requires $1 == old($2).k()")
for l in BASE + [EVEN] + ["ensures [%s] %s" % (O, got(p("head", "cx(%0)")))]:
    out.append("    " + l.replace("$0", "$2").replace("%0", "$0"))
out.append("    decreases [P01] rem(old($2).s(), old($2).i()), %dint" % rank("vx_jump_Context"))
jump("vx_jump_STMT_HANDLERS", got(p("statement")), "P03")
out.append("    " + ENDS.replace("$0", "$1"))

# ---- statements
fn(["Parser::statement", "parse_statement"], got(p("statement")), "P03", went=True, rv=[], extra=[ENDS])
fn("Parser::expression_statement", got(p("expression_end", "$1")), "P03")
fn("Parser::wrap_expression", got("put(%s, nd(Statement::Expression($1)))" % p("semi")), L, rv=[])
ST = {"EMPT": ["Semicolon"], "DBGGR": ["Debugger"], "BLCK": ["BraceOpen"], "VAR": ["DeclarationVar"], "LET": ["DeclarationLet"], "CONS": ["DeclarationConst"],
      "RET": ["Return"], "BRK": ["Break"], "THRW": ["Throw"], "CONT": ["Continue"], "FUNC": ["Function"], "CLAS": ["Class"], "IF": ["If"], "WHL": ["While"], "DO": ["Do"],
      "FOR": ["For"], "TRY": ["Try"], "SWCH": ["Switch"], "LABL": ["Identifier"], "IMPT": ["Import"]}
BODY = {"BLCK": "block_statement", "RET": "return_statement", "BRK": "break_statement", "THRW": "throw_statement", "CONT": "continue_statement",
        "FUNC": "function_statement", "CLAS": "class_statement", "IF": "if_statement", "WHL": "while_statement", "DO": "do_statement", "FOR": "for_statement",
        "TRY": "try_statement", "SWCH": "switch_statement", "LABL": "labeled_or_expression_statement", "IMPT": "import_declaration"}
IMPL = ["invariant kept(*old(self), *self)", "invariant [P01] ok_errs(*old(self), *self)", "invariant_except_break [P01] even_in(*old(self), *self)", "invariant self.i() > old(self).i()",
        "invariant_except_break [P03] p_statement(old(self).s(), old(self).i()) == then(*old(self), *self, p_import_names(self.s(), self.i(), builder.q@))",
        "ensures [P01] even(*old(self), *self)",
        "ensures [P03] p_statement(old(self).s(), old(self).i()) == then(*old(self), *self, p_import_from(self.s(), self.i(), builder.q@))"]
SUB = {"BLCK": ["statements"], "RET": ["return_value"], "BRK": ["label"], "CONT": ["label"], "IF": ["if_statement"], "DO": ["do_statement"], "TRY": ["try_statement"],
       "FOR": ["for_statement", "for_head", "for_rest", "for_update"], "LABL": ["labeled"], "IMPT": ["import", "import_clause", "import_names", "import_next", "import_from"],
       "VAR": [], "LET": [], "CONS": []}
for h, ks in ST.items():
    lab = L if h in ("RET", "BRK", "CONT", "DO", "THRW", "LABL", "DBGGR", "VAR", "LET", "CONS") else "P03"
    names = ["statement_" + h] + (["Parser::" + BODY[h]] if h in BODY else [])
    for n in names:
        own = n.startswith("Parser::") or h not in BODY
        fn(n, got(p("statement")), lab, req=at(*ks), went=True, loops=[IMPL] if n.endswith("import_declaration") else [],
           rv=["+"] + SUB.get(h, []) if own else [])
fn("Parser::variable_declaration_statement", got(p("variable", "$1")), L, req=at("DeclarationVar", "DeclarationLet", "DeclarationConst"), went=True)
fn("Parser::variable_declarator", got(p("declarator")), "P03")
fn("Parser::variable_declarators", got(p("declarators")), "P03",
   loops=[["invariant kept(*old(self), *self)", "invariant [P01] ok_errs(*old(self), *self)", "invariant [P01] even(*old(self), *self)",
           "invariant [P03] p_declarators(old(self).s(), old(self).i()) == then(*old(self), *self, p_declarators_more(self.s(), self.i(), builder.q@))"]], rv=['+', 'declarators_more'])
fn("Parser::for_init", got(p("for_init", "$1")), "P03", req=at("DeclarationVar", "DeclarationLet", "DeclarationConst"))
fn("Parser::for_in_statement", got(p("for_in", "$2")), "P03", even="ensures [P01] popped(*old($0), *final($0), Br::Paren)", extra=["requires [N01] placed($1)"])
fn("Parser::for_of_statement", got(p("for_of", "$2")), "P03", even="ensures [P01] popped(*old($0), *final($0), Br::Paren)", extra=["requires [N01] placed($1)"])

# ---- blocks, functions, classes, patterns
for w, r in (("statement", "statements"), ("case", "cases"), ("member", "members")):
    fn("Parser::raw_block_" + w, "old($0).k() is EndOfProgram || " + got("map_block(%s)" % p(r, "Seq::empty()")), "P03",
       extra=["ensures [P01] old($0).k() is EndOfProgram ==> !clean(*old($0), *final($0))"],
       rv=[r], loops=[["invariant kept(*old(self), *self)", "invariant [P01] ok_errs(*old(self), *self)", "invariant [P01] even(*old(self), *self)",
               "invariant old(self).k() is EndOfProgram ==> !clean(*old(self), *self)",
               "invariant [P03] old(self).k() is EndOfProgram || p_%s(old(self).s(), old(self).i(), Seq::empty()) == then(*old(self), *self, p_%s(self.s(), self.i(), builder.q@))" % (r, r)]])
fn(["Parser::block_body"], got(p("block")), "P03", rv=["+", "statements"])
fn("Parser::unchecked_block_body", got(p("block")), "P03", req=at("BraceOpen"), rv=["+", "statements"])
fn("Parser::block_case", got(p("block_case")), "P03", rv=["+", "cases"])
fn("Parser::block_member", got(p("block_member")), "P03", rv=["+", "members"])
fn("parse_case", got(p("case")), "P03", went=True, extra=[ENDS],
   loops=[["invariant kept(*old(par), *par)", "invariant [P01] ok_errs(*old(par), *par)", "invariant [P01] even(*old(par), *par)", "invariant [N01] placed(end)", "invariant par.i() > old(par).i() || !clean(*old(par), *par) && (old(par).k() is EndOfProgram)",
           "invariant_except_break [P03] p_case(old(par).s(), old(par).i()) == then(*old(par), *par, map_case(p_case_body(par.s(), par.i(), builder.q@), test))",
           "ensures [P03] p_case(old(par).s(), old(par).i()) == got(*old(par), *par, nd(SwitchCase { test, consequent: lst(builder.q@) }))"]], rv=['+', 'case_body'])
fn("parse_member", got(p("member")), "P03", went=True, extra=[ENDS], rv=['+', 'member_named', 'member_rest'])
fn("parse_pattern", got(p("pattern")), "P03")
fn("parse_empty_name", base=False, even=None, extra=[SAME, "ensures ret == EmptyName"])
fn("parse_optional_name", got(p("optional_name")), "P03")
fn("parse_mandatory_name", got(p("mandatory_name")), "P03")
for w in ("empty", "optional", "mandatory"):
    fn("parse_function_" + w, got(p("function_" + w)), "P03")
    if w != "empty":
        fn("parse_class_" + w, got(p("class_" + w)), "P03")
fn("parse_method", got("map_nd::<Function<'ast, EmptyName>, Function<'ast, EmptyName>>(%s)" % p("function_empty")), "P03", rv=[])
fn("Parser::pattern_void", base=False, even=None, extra=[SAME, "ensures [P03] ret == nd(Pattern::Void)"])
fn("Parser::pattern_identifier", got(p("pattern")), "P03", req=at("Identifier"))
fn("Parser::pattern_array", got(p("pattern")), "P03", req=at("BracketOpen"), rv=['+', 'pattern_array'])
fn("Parser::pattern_object", got(p("pattern")), "P03", req=at("BraceOpen"), rv=['+', 'pattern_object'])
fn("Parser::pattern_assign", got(p("pattern_assign", "$1")), "P03")
fn("Parser::pattern_array_element", got(p("pattern_item")), "P03", rv=['+', 'param', 'pattern'])
fn("Parser::pattern_param", got(p("param")), "P03", rv=['+', 'pattern'])
fn("Parser::rest_element", got(p("rest_element")), "P03", req=at("OperatorSpread"), even="ensures [P01] popped(*old($0), *final($0), Br::Paren)")
fn("Parser::params", got("map_lst(%s)" % p("params")), "P03",
   loops=[["invariant kept(*old(self), *self)", "invariant [P01] ok_errs(*old(self), *self)",
           "invariant_except_break [P01] clean(*old(self), *self) && !(old(self).stk() is Bad) ==> self.stk() == push(old(self).stk(), Br::Paren)",
           "invariant_except_break [P03] p_params(old(self).s(), old(self).i()) == then(*old(self), *self, p_params_rest(self.s(), self.i(), builder.q@))",
           "ensures [P01] even(*old(self), *self)",
           "ensures [P03] p_params(old(self).s(), old(self).i()) == got(*old(self), *self, builder.q@)"]], rv=['+', 'params_next', 'params_rest'])

# ---- thresholds
out.append("@opt trait BindingPower spec fn thr ( ) -> int ;")
for n, t in g.THR.items():
    out.append("@opt impl BindingPower@%s open spec fn thr ( ) -> int { %d }" % (n, t))
    out.append("@fn BindingPower@%s::vx_LUT -> ret" % n)
    out.append("    ensures [O01,P03] ret is Some <==> level($0) > %d" % t)
    out.append("    ensures [O01,P03] ret is Some ==> vx_pre_NestedHandler(ret->0, $0)")
out.append("@fn BindingPower::vx_LUT -> ret")
out.append("    ensures ret is Some <==> level($0) > Self::thr()")
out.append("    ensures ret is Some ==> vx_pre_NestedHandler(ret->0, $0)")
out.append("@fn BindingPower::handler -> ret")
out.append("    ensures [O01,P02,P03] ret is Some <==> level($1) > Self::thr() && !(($1 is OperatorIncrement || $1 is OperatorDecrement) && $0 is ImplicitSemicolon)")
out.append("    ensures ret is Some ==> vx_pre_NestedHandler(ret->0, $1)")

# ---- whole texts
fn("Parser::parse", base=False, even=None, req="old($0).i() == 0 && old($0).errors@.len() == 0 && old($0).body == lst::<StatementNode<'ast>>(Seq::empty())",
   extra=["ensures [P01] errs_ok(final($0).errors@)",
          "ensures [P03] match p_program(old($0).s(), 0) { Some((q, j)) => final($0).errors@.len() == 0 && final($0).body == lst(q), None => final($0).errors@.len() > 0 }",
          "ensures [P01] final($0).errors@.len() == 0 ==> final($0).s() == old($0).s() && final($0).k() is EndOfProgram && final($0).stk() is Nil"],
   loops=[["invariant kept(*old(self), *self)", "invariant [P01] ok_errs(*old(self), *self)", "invariant [P01] even(*old(self), *self)",
           "invariant [P03] p_program_rest(old(self).s(), 0, Seq::empty()) == then(*old(self), *self, p_program_rest(self.s(), self.i(), builder.q@))"]], rv=['program', 'program_rest'], proof=["reveal(stk);"])
out.append("@fn parse -> ret")
out.append("    ensures [P03] match p_program(toks_of($0), 0) { Some((q, j)) => ret is Ok && unsafe_of::<StatementList<'ast>>(ret->Ok_0.body) == lst(q), None => ret is Err }")
out.append("    ensures [P01] ret is Err ==> ret->Err_0@.len() > 0 && errs_ok(ret->Err_0@)")
out.append("    ensures [P03] ret is Ok ==> forall|k: int| 0 <= k < unsafe_of::<StatementList<'ast>>(ret->Ok_0.body).q@.len() ==> wf_stmt(*(#[trigger] unsafe_of::<StatementList<'ast>>(ret->Ok_0.body).q@[k]).item)")
out.append("    proof:\n        toks_lexed($0);\n        if p_program(toks_of($0), 0) is Some { w_program(toks_of($0), 0); }")
open(os.path.join(HERE, "parser_gen.spec"), "w").write("\n".join(out) + "\n")
