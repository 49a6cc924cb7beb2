#!/usr/bin/env python3
"""Writes ../harness/src/refparse_gen.rs: the rules of grammar.py as an executable reference parser."""
import os, re
HERE = os.path.dirname(os.path.abspath(__file__))
import gen_parser as g


def ty(t):
    t = t.replace("Seq<", "Vec<").replace("int", "i32")
    return re.sub(r"MandatoryName|OptionalName|EmptyName", lambda m: m.group(0), t)


def kinds(ks, e="self.kind()"):
    return "matches!(%s, %s)" % (e, " | ".join("T::" + k for k in ks.split("|")))


def ex(e):
    e = e.replace("at(s, @here).kind", "self.kind()")
    e = e.replace("asi(at(s, @here))", "self.asi()")
    e = e.replace("binds(thr, at(s, @here))", "self.binds(thr)")
    e = e.replace("@kind", "self.kind()").replace("@text", "self.text()").replace("@acc", "self.inner()").replace("@quasi", "self.inner()")
    e = e.replace("lvalue(*left.item)", "lvalue(&left.item)")
    e = e.replace("callee.item is Call", "matches!(callee.item, Expression::Call(_))")
    e = e.replace("Seq::empty()", "Vec::new()").replace(".push(", ".pushed(")
    e = re.sub(r"\bnd\(", "self.nd(", e)
    e = re.sub(r"\blst\(", "self.lst(", e)
    e = re.sub(r"patterns_of\(params, 0, Vec::new\(\)\)->0", "self.patterns_of(&params)?", e)
    e = re.sub(r"patterns_of\(params, 0, Vec::new\(\)\) is Some", "self.patterns_of(&params).is_some()", e)
    e = re.sub(r"self\.asi\(\) is (\w+)", r"self.asi() == Asi::\1", e)
    e = re.sub(r"self\.kind\(\) is (\w+)", r"self.kind() == T::\1", e)
    e = re.sub(r"\bat ([A-Za-z|]+)", lambda m: kinds(m.group(1)), e)
    e = re.sub(r"\bword\b", "is_word(self.kind())", e)
    assert "@" not in e and " is " not in e, e
    return e


def emit(stmts, ind):
    assert stmts
    (l, body), rest = stmts[0], stmts[1:]
    pad = "    " * ind
    if body is not None:
        branches = [(l[3:], body)]
        k, els = 0, None
        while k < len(rest) and rest[k][1] is not None and (rest[k][0].startswith("elif ") or rest[k][0] == "else"):
            if rest[k][0] == "else":
                els = rest[k][1]
                k += 1
                break
            branches.append((rest[k][0][5:], rest[k][1]))
            k += 1
        tail = rest[k:]
        s = ""
        for c, b in branches:
            s += "%s%sif %s {\n%s%s}" % (pad if not s else " ", "" if not s else "else ", ex(c), emit(b + tail, ind + 1), pad)
        s += " else {\n%s%s}\n" % (emit((els or []) + tail, ind + 1), pad)
        return s
    more = lambda: emit(rest, ind)
    if l == "step":
        return "%sif self.kind() == T::EndOfProgram { return None; }\n%sself.skip();\n" % (pad, pad) + more()
    if l == "skip":
        return "%sself.skip();\n" % pad + more()
    if l.startswith("tok "):
        return "%sif self.kind() != T::%s { return None; }\n%sself.skip();\n" % (pad, l[4:], pad) + more()
    if l.startswith("mode "):
        return "%sself.%s();\n" % (pad, l[5:]) + more()
    if l.startswith("guard "):
        return "%sif !(%s) { return None; }\n" % (pad, ex(l[6:])) + more()
    if l.startswith("let "):
        a, e = l[4:].split(" = ", 1)
        return "%slet %s = %s;\n" % (pad, a, ex(e)) + more()
    if l.startswith("ret "):
        return "%sSome(%s)\n" % (pad, ex(l[4:]))
    if l == "fail":
        return pad + "None\n"
    m = re.match(r"(\w+) (<-|<=) (\w+)\((.*)\)$", l)
    x, how, f, args = m.groups()
    if rest == [("ret " + x, None)]:
        return "%sself.r_%s(%s)\n" % (pad, f, ex(args))
    return "%slet %s = self.r_%s(%s)?;\n" % (pad, "_" if x == "u" and ("ret" in str(rest)) and f == "semi" else x, f, ex(args)) + more()


out = ["// written by spec/gen_refparse.py from spec/grammar.py"]
out.append("pub fn is_word(k: T) -> bool { %s }" % kinds("|".join(g.WORDS), "k"))
lv = ["T::Comma => 0", "T::OperatorConditional => 40", "T::OperatorFatArrow => 165", "T::OperatorIncrement | T::OperatorDecrement => 160", "T::ParenOpen => 170",
      "T::BracketOpen | T::Accessor | T::TemplateOpen | T::TemplateClosed => 180"]
lv += ["T::Operator%s => %s" % (a, b) for a, b, _ in g.BIN] + ["T::Operator%s => 20" % a for a, _ in g.ASG]
out.append("pub fn level(k: T) -> i32 { match k { %s, _ => -10 } }" % ", ".join(lv))
out.append("pub fn is_assign(k: T) -> bool { %s }" % kinds("|".join("Operator" + a for a, _ in g.ASG), "k"))
out.append("pub fn is_binary(k: T) -> bool { %s }" % kinds("|".join("Operator" + a for a, _, _ in g.BIN), "k"))
out.append("pub fn is_unary(k: T) -> bool { %s }" % kinds("|".join("Operator" + a for a in g.PREFIX), "k"))
out.append("pub fn operator(k: T) -> OperatorKind { match k { %s, _ => OperatorKind::New } }" % ", ".join(
    "T::Operator%s => OperatorKind::%s" % (a, a) for a in dict.fromkeys([a for a, _, _ in g.BIN] + [a for a, _ in g.ASG] + g.PREFIX)))
out.append("impl<'a> RefParser<'a> {")
for n, (params, t, rank, text) in g.RULES.items():
    out.append("    pub fn r_%s(&mut self%s) -> Option<%s> {\n%s    }" % (n, ", " + ty(params) if params else "", ty(t), emit(g.tree(text), 2)))
out.append("}")
open(os.path.join(HERE, "..", "harness", "src", "refparse_gen.rs"), "w").write("\n".join(out) + "\n")
