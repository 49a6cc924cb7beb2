#!/usr/bin/env python3
"""Writes parser_gen.rs: the grammar of the supported JavaScript, as functions over the tokens of a text.

Each rule below becomes a specification function  p_NAME(s, i, ..) -> Option<(tree, next)>.
  skip            take any token (step: not the end) tok K           take a token of kind K
  x <- rule(..)   parse a rule                       guard C         give up unless C
  let x = E       name a value                       ret E / fail    the result
  if C: / else:   alternatives; `at A|B` tests the kind of the next token, `word` that it is a word
  @text @acc @quasi @kind @nl @here   of the next token
"""
import os, re
HERE = os.path.dirname(os.path.abspath(__file__))

OPS = """
Multiplication 140 MUL
Division 140 DIV
Remainder 140 REM
Exponent 145 EXPN
Addition 130 ADD
Subtraction 130 SUB
BitShiftLeft 120 BSL
BitShiftRight 120 BSR
UBitShiftRight 120 UBSR
Lesser 110 LESS
LesserEquals 110 LSEQ
Greater 110 GRTR
GreaterEquals 110 GREQ
Instanceof 110 INOF
In 110 IN
StrictEquality 100 STEQ
StrictInequality 100 SIEQ
Equality 100 EQ
Inequality 100 INEQ
BitwiseAnd 90 BWAN
BitwiseXor 80 BWXO
BitwiseOr 70 BWOR
LogicalAnd 60 AND
LogicalOr 50 OR
"""
ASSIGN = """
Assign ASGN
AddAssign ADDA
SubtractAssign SUBA
ExponentAssign EXPA
MultiplyAssign MULA
DivideAssign DIVA
RemainderAssign REMA
BSLAssign BSLA
BSRAssign BSRA
UBSRAssign UBSA
BitAndAssign BWAA
BitXorAssign XORA
BitOrAssign BORA
"""
BIN = [l.split() for l in OPS.strip().split("\n")]
ASG = [l.split() for l in ASSIGN.strip().split("\n")]
PREFIX = "Increment Decrement LogicalNot BitwiseNot Typeof Void Delete Addition Subtraction".split()
THR = {"ANY": -1, "B0": 0, "B1": 0, "B5": 50, "B6": 60, "B7": 70, "B8": 80, "B9": 90, "B10": 100, "B11": 110, "B12": 120,
       "B13": 130, "B14": 140, "B15": 150, "B18": 175}
WORDS = """Identifier Break Do Case Else Catch Export Class Extends Return While Finally Super With Continue For Switch Yield
Debugger Function This Default If Throw Import Try Static OperatorNew OperatorTypeof OperatorVoid OperatorDelete
OperatorInstanceof OperatorIn DeclarationVar DeclarationLet DeclarationConst
ReservedEnum ReservedImplements ReservedPackage ReservedProtected ReservedInterface ReservedPrivate ReservedPublic LiteralTrue LiteralFalse LiteralNull LiteralUndefined""".split()

Ex, St, Pt, Pr = "ExpressionNode<'a>", "StatementNode<'a>", "Node<'a, Pattern<'a>>", "Node<'a, Property<'a>>"
RULES = {}   # name -> (params, type, rank, text)


def rule(name, params, ty, rank, text):
    RULES[name] = (params, ty, rank, text)


def X(e):
    return "nd(Expression::%s)" % e


exec(open(os.path.join(HERE, "grammar.py")).read())


# rules that are only names for parts of others
INLINE = """expression_statement labeled label return_value if_statement do_statement try_statement for_statement for_first for_head for_rest for_test for_update
import import_clause pattern_array pattern_object new_arguments property_value member_named member_rest paren""".split()

# ---- compilation

def tree(text):
    lines = [(len(l) - len(l.lstrip()), l.strip()) for l in text.strip("\n").split("\n") if l.strip()]

    def block(k, ind):
        out = []
        while k < len(lines) and lines[k][0] >= ind:
            assert lines[k][0] == ind, lines[k]
            l = lines[k][1]
            if l.endswith(":"):
                body, k2 = block(k + 1, lines[k + 1][0])
                out.append((l[:-1], body))
                k = k2
            else:
                out.append((l, None))
                k += 1
        return out, k
    return block(0, lines[0][0])[0]


def pos(v, n):
    return v if n == 0 else "%s + %d" % (v, n)


def kinds(ks):
    return "(" + " || ".join("vx_k is %s" % k for k in ks.split("|")) + ")"


def cond(c, p):
    c = re.sub(r"\bat ([A-Za-z|]+)", lambda m: "(" + " || ".join("at(s, %s).kind is %s" % (p, k) for k in m.group(1).split("|")) + ")", c)
    c = re.sub(r"\bword\b", "is_word(at(s, %s).kind)" % p, c)
    return sub(c, p)


def sub(e, p):
    e = e.replace("@here", "(%s)" % p)
    return re.sub(r"@(\w+)", lambda m: "at(s, %s).%s" % (p, m.group(1)), e)


LEAF = "semi ident block_end optional_name mandatory_name".split()


def goes_on(stmts):
    """whether rules are called whose termination rests on what was read before"""
    for l, body in stmts:
        if body is not None and goes_on(body):
            return True
        m = re.match(r"(\w+) (<-|<=) (\w+)\((.*)\)$", l)
        if m and m.group(3) not in LEAF and (m.group(3) not in INLINE or goes_on(tree(RULES[m.group(3)][3]))):
            return True
    return False


CNT = [0]


def lits(e):
    def f(m):
        n = 0
        for i, c in enumerate(m.group(1).encode()):
            n += c << (8 * i)
        return "lit(%d)" % n
    return re.sub(r'"(\w*)"', f, e)


def comp(stmts, v, n, ind):
    """the expression for stmts, at position v + n"""
    assert stmts, "rule without result"
    (l, body), rest = stmts[0], stmts[1:]
    p = pos(v, n)
    pad = "    " * ind
    if body is not None:
        assert l.startswith("if "), l
        branches = [(l[3:], body)]
        k = 0
        els = None
        while k < len(rest) and rest[k][1] is not None and (rest[k][0].startswith("elif ") or rest[k][0] == "else"):
            if rest[k][0] == "else":
                els = rest[k][1]
                k += 1
                break
            branches.append((rest[k][0][5:], rest[k][1]))
            k += 1
        tail = rest[k:]
        s = ""
        for c, b in branches:
            s += "%sif %s {\n%s%s}\n" % (pad if not s else pad + "else ", cond(c, p), comp(b + tail, v, n, ind + 1), pad)
        s += "%selse {\n%s%s}\n" % (pad, comp((els or []) + tail, v, n, ind + 1), pad)
        return s
    if l == "step":
        return "%sif !(at(s, %s).kind is EndOfProgram) && plain(s, %s) {\n%s%s} else { None }\n" % (pad, p, pos(v, n + 1), comp(rest, v, n + 1, ind + 1), pad)
    if l == "skip":
        return "%sif plain(s, %s) {\n%s%s} else { None }\n" % (pad, pos(v, n + 1), comp(rest, v, n + 1, ind + 1), pad)
    if l.startswith("tok "):
        return "%sif at(s, %s).kind is %s && plain(s, %s) {\n%s%s} else { None }\n" % (pad, p, l[4:], pos(v, n + 1), comp(rest, v, n + 1, ind + 1), pad)
    if l.startswith("mode "):  # take the token; the next is read in the given mode
        return "%sif %s(s, %s) {\n%s%s} else { None }\n" % (pad, l[5:], pos(v, n + 1), comp(rest, v, n + 1, ind + 1), pad)
    if l.startswith("guard "):
        return "%sif %s {\n%s%s} else { None }\n" % (pad, cond(l[6:], p), comp(rest, v, n, ind + 1), pad)
    if l.startswith("let "):
        a, e = l[4:].split(" = ", 1)
        return "%slet %s = %s;\n%s" % (pad, a, sub(e, p), comp(rest, v, n, ind))
    if l.startswith("ret "):
        assert not rest, rest
        return "%sSome((%s, %s))\n" % (pad, sub(l[4:], p), p)
    if l == "fail":
        return pad + "None\n"
    m = re.match(r"(\w+) (<-|<=) (\w+)\((.*)\)$", l)
    if m:
        x, how, f, args = m.groups()
        assert f in RULES, f
        CNT[0] += 1
        j = "j%d" % CNT[0]
        op = ">" if how == "<=" else ">="
        if f in INLINE:
            params, _, _, text = RULES[f]
            names = [q.split(":")[0].strip() for q in re.findall(r"\w+: ", params)]
            call = "{\n" + ("%s    let (%s) = (%s);\n" % (pad, ", ".join(names), sub(args, p)) if names else "") + comp(tree(text), v, n, ind + 1) + pad + "}"
            if rest == [("ret " + x, None)]:
                return pad + call + "\n"
            call = "(" + call + ")"
        else:
            if args:
                args = ", " + sub(args, p)
            call = "p_%s(s, %s%s)" % (f, p, args)
        if rest == [("ret " + x, None)]:
            return "%s%s\n" % (pad, call)
        if how == "<-" and not goes_on(rest):
            return "%smatch %s {\n%s    Some((%s, %s)) => {\n%s%s    },\n%s    None => None,\n%s}\n" % (
                pad, call, pad, x, j, comp(rest, j, 0, ind + 2), pad, pad, pad)
        return "%smatch %s {\n%s    Some((%s, %s)) => if %s %s %s {\n%s%s    } else { None },\n%s    None => None,\n%s}\n" % (
            pad, call, pad, x, j, j, op, p, comp(rest, j, 0, ind + 2), pad, pad, pad)
    raise SystemExit("what is: " + l)


out = ["// written by gen_parser.py"]
out.append("pub open spec fn is_word(k: Token) -> bool { %s }" % " || ".join("k is " + w for w in WORDS))
lv = ["Token::Comma => 0int", "Token::OperatorConditional => 40int", "Token::OperatorFatArrow => 165int", "Token::OperatorIncrement => 160int",
      "Token::OperatorDecrement => 160int", "Token::ParenOpen => 170int", "Token::BracketOpen => 180int", "Token::Accessor => 180int",
      "Token::TemplateOpen => 180int", "Token::TemplateClosed => 180int"]
lv += ["Token::Operator%s => %sint" % (a, b) for a, b, _ in BIN] + ["Token::Operator%s => 20int" % a for a, _ in ASG]
out.append("/// How tightly what starts with this token binds to what stands to its left")
out.append("pub open spec fn level(k: Token) -> int { match k { %s, _ => -10int } }" % ", ".join(lv))
out.append("pub open spec fn is_assign(k: Token) -> bool { %s }" % " || ".join("k is Operator" + a for a, _ in ASG))
out.append("pub open spec fn is_binary(k: Token) -> bool { %s }" % " || ".join("k is Operator" + a for a, _, _ in BIN))
out.append("pub open spec fn is_unary(k: Token) -> bool { %s }" % " || ".join("k is Operator" + a for a in PREFIX))
out.append("pub open spec fn operator(k: Token) -> OperatorKind { match k { %s, _ => OperatorKind::New } }" % ", ".join(
    "Token::Operator%s => OperatorKind::%s" % (a, a) for a in dict.fromkeys([a for a, _, _ in BIN] + [a for a, _ in ASG] + PREFIX)))


def firsts(rule):
    """the kinds a rule may start with"""
    res = []
    for l in RULES[rule][3].split("\n"):
        m = re.match(r"(?:el)?if at ([\w|]+)(.*):$", l)
        if m and "ctx" not in m.group(2):
            res += m.group(1).split("|")
        if re.match(r"(?:el)?if .*is_unary", l):
            res += ["Operator" + o for o in PREFIX]
    return list(dict.fromkeys(res))


out.append("pub open spec fn starts_statement(k: Token) -> bool { %s }" % " || ".join("k is " + k for k in firsts("statement")))
out.append("pub open spec fn starts_expression(k: Token, ctx: int) -> bool { %s || (k is OperatorSpread && ctx != 0) || ((k is Comma || k is BracketClose) && ctx == 1) }" % " || ".join("k is " + k for k in firsts("head")))
for n, (params, ty, rank, text) in RULES.items():
    if n in INLINE:
        continue
    ps = "s: Seq<Tok<'a>>, i: int" + (", " + params if params else "")
    out.append(("" if n in LEAF else "#[verifier::opaque]\n") + "pub open spec fn p_%s<'a>(%s) -> Option<(%s, int)>%s\n{\n%s}" % (n, ps, ty, "" if n in LEAF else "\n    decreases rem(s, i), %dint" % rank, lits(comp(tree(text), "i", 0, 1))))
out = "\n".join(out) + "\n"
open(os.path.join(HERE, "parser_gen.rs"), "w").write(out)
