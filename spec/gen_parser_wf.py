#!/usr/bin/env python3
"""Writes parser_wf.rs: what every tree the grammar gives is like (wf_K: nothing stands in for what could not be read,
literals have the text of their token), and the proof of it, one lemma w_RULE per rule of grammar.py, by induction
over the tokens left."""
import os, re
HERE = os.path.dirname(os.path.abspath(__file__))
import gen_parser as g
Ex, St, Pt, Pr = g.Ex, g.St, g.Pt, g.Pr


def each(q, k, void=None):
    e = "wf_%s(*(#[trigger] %s[k]).item)" % (k, q)
    if void:
        e = "(*(#[trigger] %s[k]).item is Void || wf_%s(*%s[k].item))" % (q, k, q)
    return "(forall|k: int| 0 <= k < %s.len() ==> %s)" % (q, e)


def n(k, e): return "wf_%s(*%s.item)" % (k, e)
def o(k, e): return "(match %s { Some(y) => wf_%s(*y.item), None => true })" % (e, k)
def l(k, e, void=None): return each(e + ".q@", k, void)


SHAPES = {
 "expr": ("Expression<'a>", [
    ("Expression::Void", "false"),
    ("Expression::Literal(x)", "wf_lit(x)"),
    ("Expression::Sequence(x)", l("expr", "x.body")),
    ("Expression::Array(x)", l("expr", "x.body", True)),
    ("Expression::Member(x)", n("expr", "x.object")),
    ("Expression::ComputedMember(x)", n("expr", "x.object") + " && " + n("expr", "x.property")),
    ("Expression::Call(x)", n("expr", "x.callee") + " && " + l("expr", "x.arguments")),
    ("Expression::Binary(x)", n("expr", "x.left") + " && " + n("expr", "x.right")),
    ("Expression::Prefix(x)", n("expr", "x.operand")),
    ("Expression::Postfix(x)", n("expr", "x.operand")),
    ("Expression::Conditional(x)", " && ".join(n("expr", "x." + f) for f in ("test", "consequent", "alternate"))),
    ("Expression::Template(x)", "wf_tpl(x)"),
    ("Expression::TaggedTemplate(x)", n("expr", "x.tag") + " && " + n("tpl", "x.quasi")),
    ("Expression::Spread(x)", n("expr", "x.argument")),
    ("Expression::Arrow(x)", "wf_arrow(x)"),
    ("Expression::Object(x)", l("prop", "x.body")),
    ("Expression::Function(x)", "wf_func(x)"),
    ("Expression::Class(x)", "wf_class(x)"),
    ("Expression::This(_)", "true"), ("Expression::Identifier(_)", "true"), ("Expression::MetaProperty(_)", "true")]),
 "stmt": ("Statement<'a>", [
    ("Statement::Empty", "true"), ("Statement::Debugger", "true"), ("Statement::Break(_)", "true"), ("Statement::Continue(_)", "true"), ("Statement::Import(_)", "true"),
    ("Statement::Expression(x)", n("expr", "x")),
    ("Statement::Declaration(x)", "wf_declaration(x)"),
    ("Statement::Return(x)", o("expr", "x.value")),
    ("Statement::Throw(x)", n("expr", "x.value")),
    ("Statement::If(x)", n("expr", "x.test") + " && " + n("stmt", "x.consequent") + " && " + o("stmt", "x.alternate")),
    ("Statement::While(x)", n("expr", "x.test") + " && " + n("stmt", "x.body")),
    ("Statement::Do(x)", n("stmt", "x.body") + " && " + n("expr", "x.test")),
    ("Statement::For(x)", o("forinit", "x.init") + " && " + o("expr", "x.test") + " && " + o("expr", "x.update") + " && " + n("stmt", "x.body")),
    ("Statement::ForIn(x)", n("forinit", "x.left") + " && " + n("expr", "x.right") + " && " + n("stmt", "x.body")),
    ("Statement::ForOf(x)", n("forinit", "x.left") + " && " + n("expr", "x.right") + " && " + n("stmt", "x.body")),
    ("Statement::Try(x)", n("block", "x.block") + " && " + o("catch", "x.handler") + " && " + o("block", "x.finalizer")),
    ("Statement::Block(x)", "wf_block(x)"),
    ("Statement::Labeled(x)", n("stmt", "x.body")),
    ("Statement::Function(x)", "wf_func(x)"),
    ("Statement::Class(x)", "wf_class(x)"),
    ("Statement::Switch(x)", n("expr", "x.discriminant") + " && " + n("cblock", "x.cases"))]),
 "pat": ("Pattern<'a>", [
    ("Pattern::Void", "false"), ("Pattern::Identifier(_)", "true"), ("Pattern::RestElement { argument: _ }", "true"),
    ("Pattern::ObjectPattern { properties }", l("prop", "properties")),
    ("Pattern::ArrayPattern { elements }", l("pat", "elements", True)),
    ("Pattern::AssignmentPattern { left, right }", n("pat", "left") + " && " + n("expr", "right"))]),
 "prop": ("Property<'a>", [
    ("Property::Shorthand(_)", "true"),
    ("Property::Literal { key, value }", n("key", "key") + " && " + n("expr", "value")),
    ("Property::Method { key, value }", n("key", "key") + " && " + n("func", "value")),
    ("Property::Spread { argument }", n("expr", "argument"))]),
 "key": ("PropertyKey<'a>", [
    ("PropertyKey::Computed(x)", n("expr", "x")), ("PropertyKey::Literal(_)", "true"), ("PropertyKey::Binary(_)", "true")]),
 "member": ("ClassMember<'a>", [
    ("ClassMember::Error", "false"),
    ("ClassMember::Method { is_static: _, key, kind: _, value }", n("key", "key") + " && " + n("func", "value")),
    ("ClassMember::Literal { is_static: _, key, value }", n("key", "key") + " && " + n("expr", "value"))]),
 "forinit": ("ForInit<'a>", [("ForInit::Declaration(x)", "wf_declaration(x)"), ("ForInit::Expression(x)", n("expr", "x"))]),
 "declr": ("Declarator<'a>", n("pat", "x.id") + " && " + o("expr", "x.init")),
 "declaration": ("DeclarationStatement<'a>", l("declr", "x.declarators")),
 "case": ("SwitchCase<'a>", o("expr", "x.test") + " && " + l("stmt", "x.consequent")),
 "catch": ("CatchClause<'a>", n("pat", "x.param") + " && " + n("block", "x.body")),
 "block": ("Block<'a, Statement<'a>>", l("stmt", "x.body")),
 "cblock": ("Block<'a, SwitchCase<'a>>", l("case", "x.body")),
 "mblock": ("Block<'a, ClassMember<'a>>", l("member", "x.body")),
 "func": ("Function<'a, N>", l("pat", "x.params") + " && " + n("block", "x.body")),
 "class": ("Class<'a, N>", o("expr", "x.extends") + " && " + n("mblock", "x.body")),
 "tpl": ("TemplateLiteral<'a>", l("expr", "x.expressions")),
 "arrow": ("ArrowExpression<'a>", l("pat", "x.params") + " && (match x.body { ArrowBody::Block(y) => wf_block(*y.item), ArrowBody::Expression(y) => wf_expr(*y.item) })"),
}
out = ["// written by gen_parser_wf.py", """
/// whether a text is one that a token of this kind has (unit lexer)
pub uninterp spec fn kind_text(k: Token, t: &str) -> bool;
pub open spec fn lexed<'a>(s: Seq<Tok<'a>>) -> bool { forall|i: int| kind_text((#[trigger] at(s, i)).kind, at(s, i).text) }
#[verifier::external_body] pub proof fn toks_lexed(source: &str) ensures lexed(toks_of(source)) {}
pub open spec fn wf_lit<'a>(x: Literal<'a>) -> bool {
    match x {
        Literal::String(t) => kind_text(Token::LiteralString, t),
        Literal::Number(t) => kind_text(Token::LiteralNumber, t),
        Literal::Binary(t) => kind_text(Token::LiteralBinary, t),
        Literal::RegEx(t) => kind_text(Token::LiteralRegEx, t),
        _ => true,
    }
}"""]
for k, (ty, sh) in SHAPES.items():
    gen = "<'a, N>" if ", N>" in ty else "<'a>"
    body = sh if isinstance(sh, str) else "match x {\n" + "".join("        %s => %s,\n" % a for a in sh) + "    }"
    out.append("pub open spec fn wf_%s%s(x: %s) -> bool\n    decreases x\n{\n    %s\n}" % (k, gen, ty, body))
NODES = {"Expression<'a>": "expr", "Statement<'a>": "stmt", "Pattern<'a>": "pat", "Property<'a>": "prop", "PropertyKey<'a>": "key", "ClassMember<'a>": "member",
         "ForInit<'a>": "forinit", "Declarator<'a>": "declr", "SwitchCase<'a>": "case"}
BLOCKS = {"Statement<'a>": "block", "SwitchCase<'a>": "cblock", "ClassMember<'a>": "mblock"}


def pred(ty, e, void=False):
    """what holds of a value of this type"""
    ty = ty.replace("ExpressionNode<'a>", "Node<'a, Expression<'a>>").replace("StatementNode<'a>", "Node<'a, Statement<'a>>")
    m = re.match(r"Option<(.*)>$", ty)
    if m:
        p = pred(m[1], "y")
        return p and "(match %s { Some(y) => %s, None => true })" % (e, p)
    m = re.match(r"Seq<Node<'a, (.*)>>$", ty)
    if m:
        return each(e, NODES[m[1]], void) if m[1] in NODES else None
    m = re.match(r"NodeList<'a, (.*)>$", ty)
    if m:
        return each(e + ".q@", NODES[m[1]])
    m = re.match(r"BlockNode<'a, (.*)>$", ty)
    if m:
        return n(BLOCKS[m[1]], e)
    m = re.match(r"Node<'a, (.*)>$", ty)
    if m:
        return n(NODES[m[1]], e) if m[1] in NODES else None
    for t, k in (("Function", "func"), ("Class", "class"), ("TemplateLiteral", "tpl"), ("ArrowExpression", "arrow")):
        if re.match(t + "<", ty):
            return "wf_%s(%s)" % (k, e)
    assert ty in ("()", "int", "bool", "IdentifierNode<'a>", "OptionalName<'a>", "MandatoryName<'a>", "DeclarationKind", "MethodKind"), ty
    return None


def split(ps):
    return [tuple(x.strip() for x in q.split(":", 1)) for q in re.findall(r"\w+: (?:[^,<>]|<(?:[^<>]|<(?:[^<>]|<[^<>]*>)*>)*>)+", ps)]


SPLIT = ("statement", "member", "property")
# further cases for the one step of these
WORDS = ["is_word(at(s, %s).kind) && is_word(at(s, %s).kind)", "is_word(at(s, %s).kind) && at(s, %s).kind is ParenOpen", "is_word(at(s, %s).kind)", "at(s, %s).kind is LiteralNumber", "at(s, %s).kind is LiteralBinary", None]
CASES = {"member_0": [c and c.replace("%s", "i + 1", 1).replace("%s", "i + 2") for c in WORDS], "member_1": [c and c.replace("%s", "i", 1).replace("%s", "i + 1") for c in WORDS]}
ELEMS = ("array_items", "array_items_rest", "pattern_items", "pattern_items_rest")
HOLE = {"head": "(ctx == 1 && *x.item is Void && (p_head(s, i, ctx)->0).1 == i && (at(s, i).kind is Comma || at(s, i).kind is BracketClose))",
        "expr": "(ctx == 1 && *x.item is Void)", "pattern_item": "*x.item is Void"}


def comp(stmts, v, k, ind, bind):
    """the proof for stmts, at position v + k; bind: what is to be done with the value (inlined rules)"""
    (line, body), rest = stmts[0], stmts[1:]
    p = g.pos(v, k)
    pad = "    " * ind
    if body is not None:
        branches = [(line[3:], body)]
        j = 0
        els = None
        while j < len(rest) and rest[j][1] is not None and (rest[j][0].startswith("elif ") or rest[j][0] == "else"):
            if rest[j][0] == "else":
                els = rest[j][1]
                j += 1
                break
            branches.append((rest[j][0][5:], rest[j][1]))
            j += 1
        s = ""
        for c, b in branches:
            s += "%sif %s {\n%s%s}\n" % (pad if not s else pad + "else ", g.cond(c, p), comp(b + rest[j:], v, k, ind + 1, bind), pad)
        return s + "%selse {\n%s%s}\n" % (pad, comp((els or []) + rest[j:], v, k, ind + 1, bind), pad)
    if line in ("step", "skip") or line.startswith("tok ") or line.startswith("mode "):
        c = {"step": "!(at(s, %s).kind is EndOfProgram) && plain(s, %s)" % (p, g.pos(v, k + 1)), "skip": "plain(s, %s)" % g.pos(v, k + 1)}.get(line)
        if line.startswith("tok "):
            c = "at(s, %s).kind is %s && plain(s, %s)" % (p, line[4:], g.pos(v, k + 1))
        if line.startswith("mode "):
            c = "%s(s, %s)" % (line[5:], g.pos(v, k + 1))
        return "%sif %s {\n%s%s}\n" % (pad, c, comp(rest, v, k + 1, ind + 1, bind), pad)
    if line.startswith("guard "):
        return "%sif %s {\n%s%s}\n" % (pad, g.cond(line[6:], p), comp(rest, v, k, ind + 1, bind), pad)
    if line.startswith("let "):
        a, e = line[4:].split(" = ", 1)
        hint = ""
        m = re.match(r"nd\((\w+)(?:::\w+)?[( ]", e)
        if m and m[1] in ("CatchClause", "ForInit", "PropertyKey", "ClassMember"):
            hint = "%sassert(%s);\n" % (pad, n(NODES.get(m[1] + "<'a>", "catch"), a))
        if a == "ps":
            hint = "%swp_patterns(params, 0, Seq::empty());\n" % pad
        return "%slet %s = %s;\n%s%s" % (pad, a, g.sub(e, p), hint, comp(rest, v, k, ind, bind))
    if line.startswith("ret "):
        return bind(g.sub(line[4:], p), v, k, ind)
    if line == "fail":
        return ""
    x, how, f, args = re.match(r"(\w+) (<-|<=) (\w+)\((.*)\)$", line).groups()
    params, ty, _, text = g.RULES[f]
    if f in g.INLINE:
        names = [q for q, _ in split(params)]
        s = "%slet (%s) = (%s);\n" % (pad, ", ".join(names), g.sub(args, p)) if names else ""
        if rest == [("ret " + x, None)]:
            return s + comp(g.tree(text), v, k, ind, bind)
        op = ">" if how == "<=" else ">="
        return s + comp(g.tree(text), v, k, ind, lambda e, v2, k2, i2: "%sif %s %s %s {\n%slet %s = %s;\n%s%s}\n" % (
            "    " * i2, g.pos(v2, k2), op, p, "    " * (i2 + 1), x, e + bound(ty, e, x), comp(rest, v2, k2, i2 + 1, bind), "    " * i2))
    if args:
        args = ", " + g.sub(args, p)
    g.CNT[0] += 1
    j = "j%d" % g.CNT[0]
    call = "p_%s(s, %s%s)" % (f, p, args)
    use = "" if f in g.LEAF or not lemma(f) else "w_%s(s, %s%s);" % (f, p, args)
    if f == "tail" and cur == "expr":
        use = "if wf_expr(*x.item) { %s } else { u_tail(s, j1, x, thr); }" % use
    if f == "arrow":
        use = "wp_left(left); " + use if "left" in args else use
    if rest == [("ret " + x, None)] and bind.__name__ == "done":
        return "%sif %s is Some { %s %s }\n" % (pad, call, use, bind("(" + call + "->0).0", None, 0, 0).strip())
    op = ">" if how == "<=" else ">="
    if how == "<-" and not g.goes_on(rest):
        return "%sif let Some((%s, %s)) = %s {\n%s    %s\n%s%s}\n" % (pad, x, j, call, pad, use, comp(rest, j, 0, ind + 1, bind), pad)
    return "%sif let Some((%s, %s)) = %s {\n%s    if %s %s %s {\n%s        %s\n%s%s    }\n%s}\n" % (
        pad, x, j, call, pad, j, op, p, pad, use, comp(rest, j, 0, ind + 2, bind), pad, pad)


def bound(ty, e, x):
    p = pred(ty, x) if e.startswith("nd(") else None
    return ("; " + " ".join(h.strip() for h in hints(e)) + " assert(%s)" % p) if p else ""


INNER = {"Statement::Block": "wf_block(%s)", "Statement::Declaration": "wf_declaration(%s)", "ForInit::Declaration": "wf_declaration(%s)"}


def hints(e):
    """what holds of the parts of a value that are built where it is"""
    m = re.match(r"nd\((\w+::\w+)\((\w+ \{.*\})\)\)$", e)
    return ["assert(" + INNER[m[1]] % m[2] + ");\n"] if m and m[1] in INNER else []


def lemma(f):
    return pred(g.RULES[f][1], "x", f in ELEMS)


out.append("""
pub proof fn wp_pattern<'a>(e: ExpressionNode<'a>)
    requires wf_expr(*e.item), pattern_of(e) is Some
    ensures wf_pat(*(pattern_of(e)->0).item)
    decreases e
{
    match *e.item {
        Expression::Binary(b) => { wp_pattern(b.left); }
        _ => {}
    }
}
pub proof fn wp_patterns<'a>(q: Seq<ExpressionNode<'a>>, k: int, acc: Seq<Node<'a, Pattern<'a>>>)
    requires %s, %s, patterns_of(q, k, acc) is Some
    ensures %s
    decreases q.len() - k
{
    if 0 <= k < q.len() {
        wp_pattern(q[k]);
        wp_patterns(q, k + 1, acc.push(pattern_of(q[k])->0));
    }
}
pub proof fn wp_left<'a>(left: ExpressionNode<'a>)
    requires wf_expr(*left.item)
    ensures %s
{
}""" % (each("q", "expr"), each("acc", "pat"), each("(patterns_of(q, k, acc)->0)".replace(", k,", ", k0,"), "pat").replace("k0", "k0"), each("arrow_params(left)", "expr")))
out[-1] = out[-1].replace("pub proof fn wp_patterns<'a>(q: Seq<ExpressionNode<'a>>, k: int", "pub proof fn wp_patterns<'a>(q: Seq<ExpressionNode<'a>>, k0: int").replace("patterns_of(q, k, acc) is Some", "patterns_of(q, k0, acc) is Some").replace("q.len() - k\n", "q.len() - k0\n").replace("if 0 <= k < q.len()", "if 0 <= k0 < q.len()").replace("q[k]);\n        wp_patterns(q, k + 1, acc.push(pattern_of(q[k])", "q[k0]);\n        wp_patterns(q, k0 + 1, acc.push(pattern_of(q[k0])")
for f, (params, ty, rank, text) in g.RULES.items():
    if f in g.INLINE or f in g.LEAF or not lemma(f):
        continue
    cur = f
    ps = split(params)
    args = "".join(", " + q for q, _ in ps)
    call = "p_%s(s, i%s)" % (f, args)
    req = ["lexed(s)", call + " is Some"] + [pred(t, q, f in ELEMS) for q, t in ps if pred(t, q)]
    if f == "expr":
        req.append("ctx == 1 ==> thr >= 0")
    ens = pred(ty, "x", f in ELEMS)
    if f in HOLE:
        ens = ens + " || " + HOLE[f]
    want = "({ let x = (%s->0).0; %s })" % (call, ens)
    g.CNT[0] = 0

    def done(e, v, k, i):
        return "".join("    " * i + h for h in hints(e)) + "%sassert({ let x: %s = %s; %s });\n" % ("    " * i, ty, e, ens)

    def lemmas(name, stmts, given):
        """the one step and the induction step, for where the conditions given hold"""
        body = g.lits(comp(stmts, "i", 0, 1, done))
        spec = g.lits(g.comp(stmts, "i", 0, 1)).strip()
        calls = [c for c in dict.fromkeys(re.findall(r"\bp_(\w+)\(s,", spec)) if c not in g.LEAF]
        head = "/// p_%s, one step\npub proof fn u_%s<'a>(s: Seq<Tok<'a>>, i: int" + (", " + params if params else "") + ")\n%s" + "    ensures %s == ({\n        %s })\n{\n" % (call, spec.replace("\n", "\n    "))
        reveals = "".join("    reveal(p_%s);\n" % c for c in dict.fromkeys([f] + calls))
        req2 = lambda g: "    requires %s\n" % ", ".join(g) if g else ""
        if name in CASES:
            past, whole = [], ""
            for q, c in enumerate(CASES[name]):
                out.append(head % (f, "%s_%d" % (name, q), req2(given + past + ([c] if c else []))) + reveals + "}")
                past = past + ["!(%s)" % c]
                whole += "    %s{ u_%s_%d(s, i%s); }\n" % (("if %s " % c if not q else "else if %s " % c) if c else "else ", name, q, args)
            reveals = whole
        out.append(head % (f, name, req2(given)) + reveals + "}")
        out.append("pub proof fn w_%s<'a>(s: Seq<Tok<'a>>, i: int%s)\n    requires %s\n    ensures %s\n    decreases rem(s, i), %dint, 0int\n{\n    u_%s(s, i%s);\n%s}" % (
            name, ", " + params if params else "", ", ".join(req + given), want, rank, name, args, body))

    stmts = g.tree(text)
    if f not in SPLIT:
        lemmas(f, stmts, [])
        continue
    given, k = [], 0
    whole = ""
    while k < len(stmts) and stmts[k][1] is not None and re.match(r"if|elif|else", stmts[k][0]):
        k += 1
    for q in range(k):
        c = re.sub(r"^(el)?if |^else$", "", stmts[q][0])
        c = g.lits(g.cond(c, "i")) if c else None
        name = "%s_%d" % (f, q)
        lemmas(name, stmts[q][1] + stmts[k:], given + ([c] if c else []))
        whole += "    %s{ w_%s(s, i%s); }\n" % (("if %s " % c if not q else "else if %s " % c) if c else "else ", name, args)
        given = given + ["!(%s)" % c]
    out.append("pub proof fn w_%s<'a>(s: Seq<Tok<'a>>, i: int%s)\n    requires %s\n    ensures %s\n    decreases rem(s, i), %dint, 1int\n{\n%s}" % (
        f, ", " + params if params else "", ", ".join(req), want, rank, whole))


def modules(text, lines):
    """lemmas in modules of their own: the verifier takes a module per thread"""
    items = re.split(r"(?m)^(?=/// [^\n]*\npub proof fn )|(?<!, one step\n)^(?=pub proof fn )", text)
    res, cur, k = [items[0]], "", 0
    for it in items[1:] + [None]:
        if it is None or cur and (cur + it).count("\n") > lines:
            res.append("pub mod vx_wf%d {\nuse super::*;\n%s}\npub use vx_wf%d::*;\n" % (k, cur, k))
            cur, k = "", k + 1
        cur += it or ""
    return "".join(res)


open(os.path.join(HERE, "parser_wf.rs"), "w").write(modules("\n".join(out) + "\n", 280))
